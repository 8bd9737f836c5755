------------------------------- MODULE PresetMC ------------------------------
(* Every request from every preset, as the user adds options one at a time: an     *)
(* option changes the parts it may influence and no other, and no option is dead.  *)
EXTENDS Preset, FiniteSets
VARIABLES p, g, part0, last
vars == <<p, g, part0, last>>
ValuesOf(o) ==
    CASE o \in {"two_halo", "lazar", "poisson", "gc", "flucs", "evolving", "time"} -> {TRUE, FALSE}
      [] o \in {"conc_sub", "conc_field"} -> {"DIEMERJOYCE19", "PEAK_HEIGHT_POWERLAW"}
      [] o \in {"scatter_sub", "scatter_field", "scatter"} -> {"off", "0.1"}
      [] o \in {"trunc_sub", "trunc_field"} -> {"TRUNCATION_R50", "TRUNCATION_MEAN_DENSITY"}
      [] o = "infall" -> {"DIRECT_INFALL", "INFALL_ZLENS"}
      [] o = "spatial" -> {"UNIFORM", "PROJECTED_NFW"}
      [] o = "geometry" -> {"CONE", "CYLINDER"}
      [] o \in {"profile", "profile_sub", "profile_field", "profile_halos"} -> {"NFW", "TNFW"}
      [] o = "galaxy" -> {"SIS", "GNFW"}
      [] o = "mf_field" -> {"LOVELL2014", "SCHIVE2016"}
      [] o = "collapsed" -> {"SPL", "GNFW"}
      [] OTHER -> {6789, 6790}
Required(x) == CASE x = "WDM" -> [o \in {"log_mc", "mf_sub"} |-> IF o = "log_mc" THEN 7000 ELSE "LOVELL2014"]
                 [] x \in {"WDM_mixed", "WDMGeneral"} -> [o \in {"log_mc"} |-> 7000]
                 [] x = "ULDM" -> [o \in {"log10_m_uldm"} |-> -21000]
                 [] OTHER -> [o \in {} |-> 0]
CONSTANT MaxGiven
Extra == Cardinality(DOMAIN g \ DOMAIN Required(p))
Init == p \in Presets /\ g = Required(p) /\ part0 = Request(p, g) /\ last = "none"
Give == Extra < MaxGiven /\ \E o \in Takes(p) : \E v \in ValuesOf(o) :
            /\ g' = [x \in DOMAIN g \cup {o} |-> IF x = o THEN v ELSE g[x]]
            /\ part0' = Request(p, g) /\ last' = o /\ UNCHANGED p
Next == Give
Spec == Init /\ [][Next]_vars
\* an option changes only what it may influence
NonInterference == LET q == Request(p, g) IN
    \A part \in DOMAIN q : q[part] # part0[part] => last \in Influence[part]
\* every option means something, with nothing else given
Effective == g = Required(p) => \A x \in {p} : \A o \in Takes(x) :
    \E base \in {Required(x)} : \E v, w \in ValuesOf(o) :
        LET with(u) == [y \in DOMAIN base \cup {o} |-> IF y = o THEN u ELSE base[y]]
        IN Request(x, with(v)) # Request(x, with(w)) \/ Request(x, with(v)) # Request(x, base)
\* the precedence of amplitudes
Precedence == LET a == Request(p, g).amplitude IN
    /\ (Given(g, "log10_dNdA") => a.lsigma = ZERO /\ a.ldnda = g["log10_dNdA"])
    /\ (~Given(g, "log10_dNdA") /\ Given(g, "log10_sigma_sub") => a.lsigma = g["log10_sigma_sub"])
\* one amplitude, never two
OneAmplitude == LET a == Request(p, g).amplitude IN (a.lsigma = ZERO) # (a.ldnda = ZERO)
==============================================================================
