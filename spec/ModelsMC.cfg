SPECIFICATION Spec
CONSTANTS Masses = {50, 62, 76, 110}
Slopes = {700, 1800, 2700, 3500}
Zs = {0, 200, 1500, 3700, 5000}
Bounds = {1000, 400000, 2000000, 9000000}
Hosts = {120, 148}
MaxReq = 2
KeySets = {{}, {"a_wdm"}, {"dlogT_dlogk", "log_mc"}, {"LOS_truncation_factor", "log_mc"}}
INVARIANTS Suppressed Halved Scatter TableNodes TableInside TrackMonotone Radii Folded Falling Steps2024 Approx Ordered Answered
CHECK_DEADLOCK FALSE
