------------------------------- MODULE Models -------------------------------
(* The models a realization is assembled from: concentration-mass relations,    *)
(* tidal truncation, infall redshifts, and the names they are asked for by.      *)
(* Logarithms are natural, in millionths; parameters are thousandths unless      *)
(* they end in 6 (millionths).                                                    *)
EXTENDS HaloLaw, Special, TLC
\* 10^6 x / b for 0 < b < 2*10^7
DivE6(x, b) ==
  LET q0 == x \div b  r0 == x % b
      r1 == r0 * 100  a1 == r1 \div b
      r2 == (r1 % b) * 100 a2 == r2 \div b
      r3 == (r2 % b) * 100 a3 == r3 \div b
  IN q0 * 1000000 + a1 * 10000 + a2 * 100 + a3
MinOf(a, b) == IF a <= b THEN a ELSE b
MaxOf(a, b) == IF a >= b THEN a ELSE b
ClampTo(x, lo, hi) == MaxOf(lo, MinOf(hi, x))
Log10E6(lnx) == MulE6(lnx, 434294)

\* ---- concentrations -----------------------------------------------------------
LnFloor == 182322                     \* ln 1.2
Floored(lc) == MaxOf(lc, LnFloor)
ConcBase == {"TABLE", "PEAK", "BINNED", "CONST"}
ConcTurn == {"NONE", "POLY", "HYPER", "LWDM"}

PeakLaw(par, q) == par.lc0 - MulE3(q.lnu - q.lnup, par.beta)
                   + MulE3(IF par.evol = "PEAK_HEIGHT" THEN q.lnu0 - q.lnu ELSE q.lrho, par.zeta)
\* the first bin whose upper edge lies above the mass; outside all bins the mass is refused
BinsOf(par) == par.bins
BinOf(par, lm) == LET S == {i \in DOMAIN par.bins : lm < par.bins[i].hi} IN
                  IF lm < par.bins[1].lo \/ S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
BaseLaw(cfg, q) ==
  CASE cfg.base = "TABLE"  -> q.lcol
    [] cfg.base = "PEAK"   -> PeakLaw(cfg.par, q)
    [] cfg.base = "BINNED" -> PeakLaw(cfg.par.bins[BinOf(cfg.par, q.lm)] @@ [evol |-> cfg.par.evol], q)
    [] cfg.base = "CONST"  -> cfg.par.lc0

\* (1 + c_scale (mhm/m)^inner)^power, times (1+z)^(0.026 z - 0.04) where it evolves
PolyLaw(s, q) == MulE3(SoftPlus(IF s.lscale = ZERO THEN ZERO ELSE s.lscale + MulE3(s.lmhm - q.lm, s.inner)), s.power)
                 + (IF s.zevol THEN MulE6(q.lz1, 26 * q.z3 - 40000) ELSE 0)
\* 0.5 (1 + tanh((log10(m/mhm) - a)/(2b)))
HyperLaw(a6, b6, lmhm, lm) == -SoftPlus(-DivE6(Log10E6(lm - lmhm) - a6, b6))
LudlowT == <<1000, 2000, 2700, 3200, 4000>>
LudlowA == << \* by slope, half-mode mass 10^6, 10^7, 10^8 and redshift 0..4
  <<<<554,484,432,276,116>>, <<474,460,376,206,53>>, <<486,429,319,120,-48>>>>,
  <<<<497,457,370,288,131>>, <<472,446,350,216,57>>, <<477,393,329,134,-21>>>>,
  <<<<490,412,367,268,121>>, <<454,406,343,240,74>>, <<455,388,287,123,-17>>>>,
  <<<<453,428,363,271,128>>, <<442,412,337,225,72>>, <<409,392,282,146,4>>>>,
  <<<<432,414,348,255,103>>, <<425,419,318,166,65>>, <<412,379,283,119,10>>>> >>
LudlowB == <<
  <<<<805,766,850,927,938>>, <<739,782,868,952,1015>>, <<782,778,892,946,1045>>>>,
  <<<<545,513,552,617,715>>, <<533,574,606,711,721>>, <<549,560,638,702,749>>>>,
  <<<<499,460,495,543,646>>, <<468,485,553,570,686>>, <<498,509,560,640,684>>>>,
  <<<<457,464,499,492,631>>, <<445,471,499,555,657>>, <<450,504,518,641,685>>>>,
  <<<<420,447,477,483,584>>, <<420,476,501,565,622>>, <<424,473,514,590,665>>>> >>
\* linear between u (at weight 0) and v (at weight w/d); millionths
Between(u, v, w, d) == u + ((v - u) * w) \div d
Cell(xs, x) == LET S == {i \in 1..(Len(xs) - 1) : xs[i] <= x} IN CHOOSE i \in S : \A j \in S : j <= i
Trilinear(t, slope, mhm3, z3) ==
  LET d == ClampTo(-slope, 1000, 4000)  m == ClampTo(mhm3, 6000, 8000)  z == ClampTo(z3, 0, 4000)
      i == Cell(LudlowT, d)  j == IF m >= 7000 THEN 2 ELSE 1  k == MinOf(z \div 1000, 3) + 1
      wz == z - 1000 * (k - 1)  wm == m - 1000 * (j + 5)
      AlongZ(a, b) == Between(1000 * t[a][b][k], 1000 * t[a][b][k + 1], wz, 1000)
      AlongM(a) == Between(AlongZ(a, j), AlongZ(a, j + 1), wm, 1000)
  IN Between(AlongM(i), AlongM(i + 1), d - LudlowT[i], LudlowT[i + 1] - LudlowT[i])
TurnLaw(cfg, q) ==
  CASE cfg.turn = "NONE"  -> 0
    [] cfg.turn = "POLY"  -> PolyLaw(cfg.sup, q)
    [] cfg.turn = "HYPER" -> HyperLaw(cfg.sup.a6, cfg.sup.b6, cfg.sup.lmhm, q.lm)
    [] cfg.turn = "LWDM"  -> HyperLaw(Trilinear(LudlowA, cfg.sup.slope, cfg.sup.mhm3, q.z3),
                                      Trilinear(LudlowB, cfg.sup.slope, cfg.sup.mhm3, q.z3), cfg.sup.lmhm, q.lm)
\* the median relation: never below 1.2
Median(cfg, q) == IF cfg.base = "CONST" THEN cfg.par.lc0
                  ELSE IF cfg.turn = "NONE" THEN Floored(BaseLaw(cfg, q))
                  ELSE Floored(Floored(BaseLaw(cfg, q)) + TurnLaw(cfg, q))
Refused(cfg, q) == cfg.base = "BINNED" /\ BinOf(cfg.par, q.lm) = 0
\* lognormal scatter: probability (millionths) of a concentration below t (t above the floor)
BelowConc(cfg, q, t) == Phi(DivE3(t - Median(cfg, q), cfg.sigma))

\* models that are asked for by a name of their own: what the name settles
PresetSup(name, given) ==
  CASE name \in {"BOSE2016", "BOSE2016_LUDLOW"} ->
         [lscale |-> 4094345, inner |-> 1000, power |-> -170, zevol |-> FALSE, lmhm |-> given.lmhm]
    [] name = "LAROCHE2022" -> [lscale |-> 3064325, inner |-> 1620, power |-> -420, zevol |-> TRUE, lmhm |-> given.lmhm]
    [] name = "FROM_FORMATION_HISTORY" ->       \* a = 0.75 (0.7/d)^0.4, b = 0.94 |ln 2.36 / ln(d + 0.6)|^0.7
         [a6 |-> ExpE6(-287682 + MulE3(-356675 - given.ld, 400)),
          b6 |-> ExpE6(-61875 + MulE3(-152380 - given.lld, 700)), lmhm |-> given.lmhm]
    [] OTHER -> given
TurnOf == [DIEMERJOYCE19 |-> "NONE", LUDLOW2016 |-> "NONE", PEAK_HEIGHT_POWERLAW |-> "NONE", BINNED_HALO_MASS |-> "NONE",
           WDM_POLYNOMIAL |-> "POLY", WDM_HYPERBOLIC |-> "HYPER", BOSE2016 |-> "POLY",
           BOSE2016_LUDLOW |-> "POLY", LAROCHE2022 |-> "POLY", LUDLOW_WDM |-> "LWDM", FROM_FORMATION_HISTORY |-> "HYPER"]
          @@ ("CONSTANT" :> "NONE")
Config(name, base, par, given, sigma) ==
  [base |-> base, par |-> par, turn |-> TurnOf[name], sup |-> PresetSup(name, given), sigma |-> sigma]

\* ---- truncation ----------------------------------------------------------------
RnKpc(m, rhoc, n) == (m + Ln(3) - Ln(4) - LnPi - n - rhoc) \div 3 + 3 * Ln10
TruncLaw(kind, par, q) ==
  CASE kind = "RN"         -> RnKpc(q.m, q.rhoc, par.n)
    \* splashback radius in units of r200m, the radius of 200 mean matter densities
    [] kind = "SPLASHBACK" -> q.lsp + RnKpc(q.m, q.rhom, Ln(200))
    [] kind = "ROCHE"      -> par.norm + MulE6(q.m - 7 * Ln10, par.mpow6) + MulE6(q.r3d - 3912023, par.nu6)
    [] kind = "MEAN"       -> par.norm + MulE3(q.lc - q.lcmed, par.cpow) + RnKpc(q.m, q.rhoc, Ln(200)) - q.lc
    [] kind = "MULTIPLE"   -> par.norm + RnKpc(q.m, q.rhoc, Ln(200)) - q.lc
    [] kind = "CONST"      -> par.norm
\* probability (millionths) that |N(1, s)| < t; t in thousandths of the median radius, s in thousandths
FoldedBelow(t, s) == Phi((((t - 1000) * 1000) \div s) * 1000) - Phi((((-t - 1000) * 1000) \div s) * 1000)

\* the tidal track of an NFW subhalo: density normalization as a function of the bound fraction;
\* x = (m_bound / m) (mu(c) / mu(c_ref)) / 1.1605002 with c_ref = 20.5878
LnRefMu == 750685
TrackX(q) == q.lmb - q.m + q.lmu - LnRefMu - 148851
TrackNorm(q) == LET x == TrackX(q) IN
                IF x > 0 THEN 0
                ELSE MinOf(0, 564328 + MulE6(x, 233764) - SoftPlus(-276721 + 2 * MulE6(x, 233764)))
\* total mass of the truncated profile: mass / mu(c) * norm * total(tau)
TotalMass(q) == q.m - q.lmu + q.norm + q.ltot

\* bound fractions (log10, thousandths) that are drawn
TruncNormBelow(t6, mean6, sd6, lo6, hi6) ==      \* all millionths; probability in 10^-5
  LET A == Phi(DivE6(lo6 - mean6, sd6)) B == Phi(DivE6(hi6 - mean6, sd6)) T == Phi(DivE6(ClampTo(t6, lo6, hi6) - mean6, sd6))
  IN ((T - A) * 1000) \div ((B - A) \div 100)
ApproxZ == <<200, 500, 800, 1200>>
ApproxScale == <<2500, 1800, 1200, 600>>
ApproxLoc == <<-4000, -1300, -1000, -1000>>
ApproxAt(t, z3) == LET z == ClampTo(z3, 200, 1200) i == Cell(ApproxZ, z)
                   IN Between(1000 * t[i], 1000 * t[i + 1], z - ApproxZ[i], ApproxZ[i + 1] - ApproxZ[i])
\* Galacticus: gamma + delta asinh(log10 f) is normal; the table is entered inside its calibration
MassLossRange == [GALACTICUS |-> [c |-> <<301030, 2584331>>, t |-> <<0, 8100000>>, h |-> <<4000000, 8000000>>],
                  ZINFALL    |-> [c |-> <<301030, 2584331>>, t |-> <<1000, 9500000>>, h |-> <<4000000, 8000000>>],
                  MILKYWAY   |-> [c |-> <<301030, 2107210>>, t |-> <<0, 12900000>>, h |-> <<6000000, 12000000>>]]
Inside(kind, c, t, h) == LET r == MassLossRange[kind] IN
  <<ClampTo(c, r.c[1], r.c[2]), ClampTo(t, r.t[1], r.t[2]), ClampTo(h, r.h[1], r.h[2])>>
JohnsonBelow(a6, b6, lash6) == Phi(a6 + MulE6(b6, lash6))

\* ---- infall redshifts ------------------------------------------------------------
\* mean and width in millionths: a / (1 + b x^c) with x = -log10 of the mass ratio, kept in [0.5, 5]
Infall == [HYBRID  |-> [ma |-> 1210601, mb |-> 1164859, mc |-> -2910756, sa |-> 682491, sb |-> 1428853, sc |-> -2144284],
           DIRECT  |-> [ma |-> 1195861, mb |-> 1510393, mc |-> -3843464, sa |-> 667466, sb |-> 1592301, sc |-> -2418740],
           CLUSTER |-> [ma |-> 721276, mb |-> 2244140, mc |-> -4694081, sa |-> 475753, sb |-> 2246142, sc |-> -2508797],
           ZLENS |-> [ma |-> 0], ZERO |-> [ma |-> 0], TABLE |-> [ma |-> 0]]
LogRatio(lmsub, lmhost) == ClampTo(Log10E6(lmhost - lmsub), 500000, 5000000)
Bend(a, b, c, lx) == ExpE6(a - SoftPlus(b + MulE6(lx, c)))
InfallMean(k, lx) == Bend(Infall[k].ma, Infall[k].mb, Infall[k].mc, lx)
InfallWidth(k, lx) == Bend(Infall[k].sa, Infall[k].sb, Infall[k].sc, lx)
InfallBelow(k, ratio, t6) == TruncNormBelow(t6, InfallMean(k, LnE6(ratio)), InfallWidth(k, LnE6(ratio)), 0, 15000000)
\* Galacticus 2024: counts in steps of 0.8354 behind the lens, linear in between; draws start in the first count
Counts2024 == <<50, 93, 125, 180, 175, 144, 120, 117, 97, 82, 52, 51, 35, 20, 9, 4, 4, 0, 1, 1>>
FirstZ == 38362
StepZ == 835401
SumTo(i) == LET F[k \in 0..i] == IF k = 0 THEN 0 ELSE F[k - 1] + Counts2024[k] IN F[i]
Cdf2024(t6) ==       \* 10^-5
  IF t6 <= FirstZ THEN 0
  ELSE LET i == (t6 - FirstZ) \div StepZ + 1 r == (t6 - FirstZ) % StepZ IN
       IF i >= 20 THEN 100000
       ELSE (((SumTo(i) - 50) * 1000 + Counts2024[i + 1] * (((r \div 100) * 1000) \div 8354)) * 100) \div (SumTo(20) - 50)

\* ---- names -----------------------------------------------------------------------
\* what a name stands for: a class and the parameters it settles (thousandths)
ConcentrationNames ==
  [DIEMERJOYCE19 |-> "ConcentrationDiemerJoyce", LUDLOW2016 |-> "ConcentrationLudlow",
   PEAK_HEIGHT_POWERLAW |-> "ConcentrationPeakHeight", BINNED_HALO_MASS |-> "BinnedHaloMass",
   WDM_HYPERBOLIC |-> "ConcentrationWDMHyperbolic", WDM_POLYNOMIAL |-> "ConcentrationWDMPolynomial",
   BOSE2016 |-> "ConcentrationWDMPolynomial", BOSE2016_LUDLOW |-> "ConcentrationWDMPolynomial",
   LAROCHE2022 |-> "ConcentrationWDMPolynomial", LUDLOW_WDM |-> "ConcentrationLudlowWDM",
   FROM_FORMATION_HISTORY |-> "ConcentrationWDMHyperbolic", CUSTOM |-> "given"] @@ ("CONSTANT" :> "ConcentrationConstant")
TruncationNames ==
  [TRUNCATION_R50 |-> "TruncationRN", TRUNCATION_R200 |-> "TruncationRN", TRUNCATION_RN |-> "TruncationRN",
   TRUNCATION_ROCHE |-> "TruncationRoche", TRUNCATION_ROCHE_GILMAN2020 |-> "TruncationRoche",
   SPLASHBACK |-> "TruncationSplashBack", TRUNCATION_MEAN_DENSITY |-> "TruncateMeanDensity",
   TRUNCATION_GALACTICUS |-> "TruncationGalacticus", TRUNCATION_GALACTICUS_ZINFALL |-> "TruncationGalacticusZinfall",
   TRUNCATION_GALACTICUS_KEELEY24 |-> "TruncationGalacticusKeeley24",
   MULTIPLE_RS |-> "Multiple_RS", BOUND_MASS_PDF |-> "TruncationBoundMassPDF",
   TRUNCATION_GALACTICUS_CDM_APPROX |-> "TruncationGalacticusApproxCDM"] @@ ("CONSTANT" :> "ConstantTruncationArcsec")
MassFunctionNames ==
  [SHMF_LOVELL2020 |-> "WDMPowerLaw", LOVELL2020 |-> "ShethTormenTurnover", SHMF_LOVELL2014 |-> "WDMPowerLaw",
   LOVELL2014 |-> "ShethTormenTurnover", SCHIVE2016 |-> "ShethTormenTurnover", SHMF_SCHIVE2016 |-> "WDMPowerLaw",
   POWER_LAW |-> "CDMPowerLaw", POWER_LAW_TURNOVER_SHMF |-> "WDMPowerLaw", POWER_LAW_TURNOVER |-> "ShethTormenTurnover",
   SHMF_MIXED_WDM_TURNOVER |-> "MixedWDMPowerLaw", MIXED_WDM_TURNOVER |-> "ShethTormenMixedWDM",
   STUCKER |-> "ShethTormenTurnover", STUCKER_SHMF |-> "WDMPowerLaw"]
PresetNames ==
  [CDM |-> "CDM", WDM |-> "WDM", SIDM_core_collapse |-> "SIDM_core_collapse", SIDM_parametric |-> "SIDM_parametric",
   SIDM_parametric_fixedbins |-> "SIDM_parametric_fixedbins", ULDM |-> "ULDM", DMEmulator |-> "DMSubhalosFromEmulator",
   WDM_mixed |-> "WDM_mixed", WDMGeneral |-> "WDMGeneral", DMGalacticus |-> "DMFromGalacticus",
   CDM_plus_BH |-> "CDM_plus_BH", JointLOSWithEmulator |-> "JointLOSWithEmulator", CUSTOM |-> "given"]
InfallNames ==
  [HYBRID_INFALL |-> "InfallDistributionHybrid", DIRECT_INFALL |-> "InfallDistributionDirect",
   DIRECT_INFALL_CLUSTER |-> "InfallDistributionClusterDirect", GALACTICUS_2024 |-> "InfallDistributionGalacticus2024",
   INFALL_ZLENS |-> "InfallAtZlens", INFALL_0 |-> "Infall0"]
Registry == [concentration |-> ConcentrationNames, truncation |-> TruncationNames, massfunction |-> MassFunctionNames,
             preset |-> PresetNames, infall |-> InfallNames]
Lovell20s == [a_wdm |-> 36150, b_wdm |-> 2500, c_wdm |-> -200]
Lovell20f == [a_wdm |-> 1950, b_wdm |-> 800, c_wdm |-> -1000]
Lovell14 == [a_wdm |-> 1000, b_wdm |-> 1000, c_wdm |-> -1300]
Schive == [a_wdm |-> 1000, b_wdm |-> 1100, c_wdm |-> -2200]
Nothing == [x \in {} |-> 0]
Settled(reg, name) ==
  CASE reg = "massfunction" /\ name = "SHMF_LOVELL2020" -> Lovell20s
    [] reg = "massfunction" /\ name = "LOVELL2020" -> Lovell20f
    [] reg = "massfunction" /\ name \in {"LOVELL2014", "SHMF_LOVELL2014"} -> Lovell14
    [] reg = "massfunction" /\ name \in {"SCHIVE2016", "SHMF_SCHIVE2016"} -> Schive
    [] reg = "truncation" /\ name = "TRUNCATION_R50" -> [LOS_truncation_factor |-> 50000]
    [] reg = "truncation" /\ name = "TRUNCATION_R200" -> [LOS_truncation_factor |-> 200000]
    [] reg = "truncation" /\ name = "TRUNCATION_ROCHE_GILMAN2020" -> [RocheNorm |-> 1400, m_power |-> 333, RocheNu |-> 667]
    [] reg = "concentration" /\ name \in {"BOSE2016", "BOSE2016_LUDLOW"} -> [c_scale |-> 60000, c_power |-> -170, c_power_inner |-> 1000]
    [] reg = "concentration" /\ name = "LAROCHE2022" -> [c_scale |-> 21420, c_power |-> -420, c_power_inner |-> 1620]
    [] OTHER -> Nothing
\* parameters computed from one the caller gives, which they replace
Replaces(reg, name) == CASE reg = "massfunction" /\ name \in {"STUCKER", "STUCKER_SHMF"} -> {"dlogT_dlogk"}
                         [] reg = "concentration" /\ name = "FROM_FORMATION_HISTORY" -> {"dlogT_dlogk"}
                         [] reg = "concentration" /\ name = "CUSTOM" -> {"custom_class"}
                         [] OTHER -> {}
Computes(reg, name) == CASE reg = "massfunction" /\ name \in {"STUCKER", "STUCKER_SHMF"} -> {"a_wdm", "b_wdm", "c_wdm"}
                         [] reg = "concentration" /\ name = "FROM_FORMATION_HISTORY" -> {"a", "b"}
                         [] reg = "concentration" /\ name \in {"BOSE2016", "BOSE2016_LUDLOW", "LAROCHE2022"} ->
                              {"concentration_cdm_class", "kwargs_cdm"}
                              \cup (IF name = "LAROCHE2022" THEN {} ELSE {"mc_suppression_redshift_evolution"})
                         [] OTHER -> {}
\* some names need, or do not allow, parameters of the caller
Allowed(reg, name, keys) ==
  IF reg = "massfunction" /\ name \in {"STUCKER", "STUCKER_SHMF"}
  THEN "dlogT_dlogk" \in keys /\ keys \cap {"a_wdm", "b_wdm", "c_wdm"} = {} ELSE TRUE
Known(reg, name) == name \in DOMAIN Registry[reg]
\* the answer to a request: the class and the keyword arguments, never the caller's own dictionary
Resolve(reg, name, given) ==
  IF ~Known(reg, name) \/ ~Allowed(reg, name, DOMAIN given) THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, cls |-> Registry[reg][name],
        keys |-> ((DOMAIN given \ Replaces(reg, name)) \cup DOMAIN Settled(reg, name)) \cup Computes(reg, name),
        par |-> [k \in (DOMAIN given \ (Replaces(reg, name) \cup Computes(reg, name))) \cup DOMAIN Settled(reg, name) |->
                   IF k \in DOMAIN Settled(reg, name) THEN Settled(reg, name)[k] ELSE given[k]]]
\* Stucker et al.: the suppression (1 + a (mhm/m)^b)^c passes 20, 50 and 80 percent at mu beta^nu half-mode masses
StuckerBeta == 435027     \* ln of beta per |slope|
StuckerMu == <<-1327648, 493476, 2803966>>
StuckerNu6 == <<365600, -99400, -946600>>
StuckerLnF == <<-1609438, -693147, -223144>>
StuckerMass(i, lslope) == StuckerMu[i] + MulE6(StuckerBeta + lslope, StuckerNu6[i])
Suppression(la, b6, c6, lm) == MulE6(SoftPlus(la - MulE6(lm, b6)), c6)
=============================================================================
