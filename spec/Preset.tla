------------------------------- MODULE Preset --------------------------------
(* The preset models.  A user names a preset and gives some of its options; the    *)
(* rest have defaults.  Request(p, g) is what the options given mean: which         *)
(* classes of objects, how many, with which concentrations, truncation radii,        *)
(* infall times, places and profiles, in which world.  Everything a preset makes      *)
(* is judged against Request; the counting and the models themselves belong to the    *)
(* other specifications.  Lengths, masses and amplitudes are logarithms (LogArith),   *)
(* exponents and decimal logarithms of masses are in 1/1000.                          *)
EXTENDS Population

Presets == {"CDM", "CDMCorrelatedStructure", "CDMBinned", "CDM_plus_BH", "WDM", "WDM_mixed", "WDMGeneral", "ULDM",
            "SIDM_core_collapse", "SIDM_parametric", "SIDM_parametric_fixedbins"}
WarmDM == {"WDM", "WDM_mixed", "WDMGeneral", "ULDM"}
SIDM == {"SIDM_core_collapse", "SIDM_parametric", "SIDM_parametric_fixedbins"}
HostModels == {"TRUNCATION_GALACTICUS", "TRUNCATION_GALACTICUS_KEELEY24", "TRUNCATION_GALACTICUS_ZINFALL"}

\* options every preset with subhalos and a field takes, and the others of each preset
World == {"cone", "geometry", "log_m_host"}
Cosmos == {"cosmo"}
Range == {"log_mlow", "log_mhigh"}
Amount == {"sigma_sub", "log10_sigma_sub", "shmf_log_slope", "LOS_normalization"}
Scalings == {"host_scaling_factor", "redshift_scaling_factor"}
Concentrations == {"conc_sub", "conc_field", "scatter_sub", "scatter_field"}
Truncations == {"trunc_sub", "trunc_field"}
Takes(p) ==
    World \cup
    CASE p = "CDM" -> Cosmos \cup Range \cup Amount \cup Scalings \cup Concentrations \cup Truncations \cup
                      {"log10_dNdA", "infall", "spatial", "r_tidal", "two_halo", "delta", "lazar", "poisson", "c_host", "gc", "sis",
                       "galaxy", "profile", "spacing"}
      [] p = "CDMCorrelatedStructure" -> Cosmos \cup Range \cup {"conc_field", "scatter_field", "trunc_field", "LOS_normalization", "delta", "boost", "sis"}
      [] p = "CDMBinned" -> Cosmos \cup Amount \cup Scalings \cup Truncations \cup
                      {"scale_low", "scale_high", "scatter", "infall", "c_host", "gc", "profile", "spacing"}
      [] p = "CDM_plus_BH" -> Range \cup Amount \cup {"gc"}
      [] p = "WDM" -> Cosmos \cup Range \cup Amount \cup Scalings \cup Concentrations \cup Truncations \cup
                      {"log10_dNdA", "mf_field", "infall", "spatial", "r_tidal", "two_halo", "lazar", "poisson", "c_host", "gc", "sis",
                       "profile_sub", "profile_field", "spacing"}
      [] p = "WDM_mixed" -> Cosmos \cup Range \cup {"sigma_sub", "shmf_log_slope", "LOS_normalization"} \cup Concentrations \cup Truncations \cup {"r_tidal"}
      [] p = "WDMGeneral" -> Cosmos \cup Range \cup Amount \cup Scalings \cup Truncations \cup
                      {"log10_dNdA", "infall", "spatial", "r_tidal", "lazar", "c_host", "gc", "sis", "profile_sub", "profile_field"}
      [] p = "ULDM" -> Cosmos \cup Range \cup {"log10_sigma_sub", "log10_dNdA", "shmf_log_slope", "LOS_normalization"} \cup Concentrations \cup Truncations \cup
                      {"r_tidal", "profile_halos", "flucs", "mf_field"}
      [] p = "SIDM_core_collapse" -> Cosmos \cup Range \cup Amount \cup Scalings \cup Concentrations \cup Truncations \cup
                      {"log10_dNdA", "infall", "lazar", "poisson", "c_host", "gc", "sis", "galaxy", "collapsed"}
      [] OTHER -> Cosmos \cup Range \cup Amount \cup Concentrations \cup Truncations \cup {"log10_dNdA", "infall", "gc", "evolving", "time"}

Absent == "absent"
Given(g, o) == o \in DOMAIN g
Or(g, o, d) == IF Given(g, o) THEN g[o] ELSE d
LnPow10(m) == m * 2302 + (m * 585) \div 1000          \* ln(10^(m/1000))

SubhaloModel(p) == CASE p \in {"CDM", "CDM_plus_BH"} -> "LUDLOW2016"
                     [] p \in SIDM -> "DIEMERJOYCE19"
                     [] p \in {"WDM", "WDM_mixed"} -> "BOSE2016"
                     [] p = "WDMGeneral" -> "LUDLOW_WDM"
                     [] p = "ULDM" -> "LAROCHE2022"
                     [] p = "CDMBinned" -> "BINNED_HALO_MASS"
                     [] OTHER -> "LUDLOW2016"
\* in CDM and what is made from it the scatter is a fifth of a dex, always
FixedScatter == SIDM \cup {"CDM", "CDM_plus_BH"}
Scatter(p, g, o) ==
    CASE p = "CDMBinned" -> Or(g, "scatter", "0.2")
      [] OTHER -> IF Given(g, o) /\ (p \notin FixedScatter \/ g[o] = "off") THEN g[o] ELSE "0.2"

HasSub(p) == p # "CDMCorrelatedStructure"
HasField(p) == p # "CDMCorrelatedStructure"
TwoHalo(p, g) == IF p \in {"CDM", "WDM"} THEN Or(g, "two_halo", TRUE) ELSE TRUE

\* which amplitude counts: a number per area wins over the logarithm of sigma_sub, which wins over sigma_sub
DefaultSigma(p) == CASE p = "CDMBinned" -> -2302585          \* 0.1
                     [] p = "ULDM" -> -2302585                \* 10^-1
                     [] OTHER -> -3688879                     \* 0.025
Amplitude(p, g) ==
    IF Given(g, "log10_dNdA") THEN [lsigma |-> ZERO, ldnda |-> g["log10_dNdA"]]
    ELSE [lsigma |-> IF Given(g, "log10_sigma_sub") THEN g["log10_sigma_sub"] ELSE Or(g, "sigma_sub", DefaultSigma(p)),
          ldnda |-> ZERO]
\* the cutoff mass: asked for, or that of the ULDM particle, (1.6e10) m22^-4/3
Cutoff(p, g) == CASE p \in {"WDM", "WDM_mixed", "WDMGeneral"} -> g["log_mc"]
                  [] p = "ULDM" -> 10204 - (4 * (g["log10_m_uldm"] + 22000)) \div 3
                  [] OTHER -> 0
\* mass functions of subhalos and field halos by name
Functions(p, g) == CASE p = "WDM" -> <<g["mf_sub"], Or(g, "mf_field", "LOVELL2020")>>
                     [] p = "WDM_mixed" -> <<"MIXED", "MIXED">>
                     [] p = "WDMGeneral" -> <<"STUCKER", "STUCKER">>
                     [] p = "ULDM" -> <<Or(g, "mf_sub", "SCHIVE2016"), Or(g, "mf_field", "SCHIVE2016")>>
                     [] OTHER -> <<"CDM", "CDM">>
\* the concentration of the host: a number, or a relation evaluated at the host (by name)
HostConcentration(p, g) ==
    IF Given(g, "c_host") THEN [by |-> "number", l |-> g["c_host"]]
    ELSE CASE p \in WarmDM -> [by |-> IF p = "WDMGeneral" THEN "DIEMERJOYCE19" ELSE "field", l |-> 0]
           [] OTHER -> [by |-> "number", l |-> 1791759]        \* 6
Threshold(p, g) == CASE p = "CDM" -> Or(g, "sis", ZERO)
                     [] p = "WDM" -> Or(g, "sis", ZERO)
                     [] p \in {"CDMCorrelatedStructure", "WDMGeneral", "SIDM_core_collapse"} -> Or(g, "sis", 24635153)   \* 5e10
                     [] OTHER -> ZERO
Profile(p, g, sub) ==
    CASE p \in {"CDM", "CDMBinned"} -> Or(g, "profile", "TNFW")
      [] p \in {"WDM", "WDMGeneral"} -> Or(g, IF sub THEN "profile_sub" ELSE "profile_field", "TNFW")
      [] p = "ULDM" -> Or(g, "profile_halos", "ULDM")
      [] OTHER -> "TNFW"

Request(p, g) ==
    [ cone |-> Or(g, "cone", 6000), geometry |-> Or(g, "geometry", "DOUBLE_CONE"), cosmo |-> Or(g, "cosmo", 0),
      spacing |-> Or(g, "spacing", 20),
      lo |-> Or(g, "log_mlow", 6000), hi |-> Or(g, "log_mhigh", 10000),
      functions |-> Functions(p, g), cutoff |-> Cutoff(p, g),
      amplitude |-> Amplitude(p, g), slope |-> Or(g, "shmf_log_slope", -1900),
      k1 |-> Or(g, "host_scaling_factor", 550), k2 |-> Or(g, "redshift_scaling_factor", 370),
      lhost |-> LnPow10(Or(g, "log_m_host", 13300)),
      norm |-> Or(g, "LOS_normalization", 0), delta |-> Or(g, "delta", 0),
      scales |-> <<Or(g, "scale_low", 0), Or(g, "scale_high", 0)>>,
      two |-> TwoHalo(p, g), lazar |-> Or(g, "lazar", TRUE), boost |-> Or(g, "boost", 0),
      poisson |-> IF p = "CDMBinned" THEN TRUE ELSE Or(g, "poisson", TRUE),
      conc |-> <<[name |-> Or(g, "conc_sub", SubhaloModel(p)), sc |-> Scatter(p, g, "scatter_sub")],
                 [name |-> Or(g, "conc_field", SubhaloModel(p)), sc |-> Scatter(p, g, "scatter_field")]>>,
      trunc |-> <<Or(g, "trunc_sub", "TRUNCATION_GALACTICUS"), Or(g, "trunc_field", "TRUNCATION_RN")>>,
      host |-> HostConcentration(p, g),
      infall |-> [name |-> Or(g, "infall", "HYBRID_INFALL"), host |-> Or(g, "log_m_host", 13300)],
      spatial |-> Or(g, "spatial", IF p \in WarmDM THEN "PROJECTED_NFW" ELSE "UNIFORM"), core |-> Or(g, "r_tidal", 250),
      profile |-> <<Profile(p, g, TRUE), Profile(p, g, FALSE)>>,
      threshold |-> Threshold(p, g), galaxy |-> IF Or(g, "galaxy", "GNFW") = "GNFW" THEN "GALAXY" ELSE "SIS",
      time |-> Or(g, "time", FALSE), gc |-> Or(g, "gc", FALSE), flucs |-> p = "ULDM" /\ Or(g, "flucs", FALSE), holes |-> p = "CDM_plus_BH",
      sidm |-> IF p \in SIDM THEN Or(g, "collapsed", IF Or(g, "evolving", TRUE) THEN "EVOLVING" ELSE "TNFWC") ELSE "" ]

\* What a part of the request may depend on.
Influence ==
    [ cone |-> {"cone"}, geometry |-> {"geometry"}, cosmo |-> {"cosmo"}, spacing |-> {"spacing"}, lo |-> {"log_mlow"}, hi |-> {"log_mhigh"},
      functions |-> {"mf_field"}, cutoff |-> {}, amplitude |-> {"sigma_sub", "log10_sigma_sub", "log10_dNdA"}, slope |-> {"shmf_log_slope"},
      k1 |-> {"host_scaling_factor"}, k2 |-> {"redshift_scaling_factor"}, lhost |-> {"log_m_host"}, norm |-> {"LOS_normalization"},
      delta |-> {"delta"}, scales |-> {"scale_low", "scale_high"}, two |-> {"two_halo"}, lazar |-> {"lazar"}, boost |-> {"boost"},
      poisson |-> {"poisson"}, conc |-> Concentrations \cup {"scatter"}, trunc |-> Truncations, host |-> {"c_host"},
      infall |-> {"infall", "log_m_host"}, spatial |-> {"spatial"}, core |-> {"r_tidal"},
      profile |-> {"profile", "profile_sub", "profile_field", "profile_halos"}, threshold |-> {"sis"}, galaxy |-> {"galaxy"}, gc |-> {"gc"}, time |-> {"time"},
      flucs |-> {"flucs"}, holes |-> {}, sidm |-> {"collapsed", "evolving"} ]

\* number of subhalos of one band of masses (b.l: log of the integral over the band at unit amplitude)
SubhaloNumber(r, at, b, scale) ==
    SubhaloAmplitude([lr |-> at.lr, lz |-> at.lz, lpivot |-> LnPow10(8000), lsigma |-> r.amplitude.lsigma, ldnda |-> r.amplitude.ldnda,
                      lhost |-> r.lhost, k1 |-> r.k1, k2 |-> r.k2, index |-> r.slope]) + b + scale
==============================================================================
