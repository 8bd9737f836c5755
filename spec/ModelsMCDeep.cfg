SPECIFICATION Spec
CONSTANTS Masses = {50, 56, 62, 68, 74, 76, 80, 90, 100, 110}
Slopes = {600, 1000, 1800, 2500, 3500}
Zs = {0, 200, 700, 1500, 3700, 5000}
Bounds = {1000, 100000, 1000000, 5000000, 15000000}
Hosts = {120, 133, 148}
MaxReq = 2
KeySets = {{}, {"a_wdm"}, {"dlogT_dlogk", "log_mc"}, {"dlogT_dlogk"}, {"a_wdm", "dlogT_dlogk"}, {"LOS_truncation_factor", "log_mc"}}
INVARIANTS Suppressed Halved Scatter TableNodes TableInside TrackMonotone Radii Folded Falling Steps2024 Approx Ordered Answered
CHECK_DEADLOCK FALSE
