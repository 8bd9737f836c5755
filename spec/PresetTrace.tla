----------------------------- MODULE PresetTrace -----------------------------
(* Realizations made by the preset models, against what was asked for.          *)
EXTENDS Preset, TraceLib

E == Trace[l]
R == Request(E.p, E.g)

\* as logarithms: a relative tolerance from the number found
Agrees(o, want, fixed, places) ==
    IF want = ZERO THEN o.n = 0
    ELSE IF want < 3700000 THEN o.n < 120                        \* fewer than forty expected
    ELSE o.n > 0 /\ NearL(o.l, want, 12000 + (IF fixed THEN (600000 \div o.n) * places ELSE (6600000 \div Root(o.n))))
\* without Poisson noise the total is what was asked for (masses are drawn all the same)
Deterministic(i) == i = 3 /\ ~R.poisson /\ R.functions = <<"CDM", "CDM">>

SubCand == {c \in RangeOf(E.sub) : c.slope = R.slope /\ c.lo = R.lo /\ c.hi = R.hi /\ c.f = R.functions[1] /\ Near(c.mc, R.cutoff, 2)}
FieldCand == {c \in RangeOf(E.field) : c.delta = R.delta /\ c.lo = R.lo /\ c.hi = R.hi /\ c.f = R.functions[2] /\ Near(c.mc, R.cutoff, 2)
                                       /\ c.spacing = R.spacing}
Scale(i) == IF E.p = "CDMBinned" THEN R.scales[i] ELSE 0
TAmount ==
    /\ E.op = "amount"
    /\ Consume([
         C21_subhalo_number |->
            IF ~HasSub(E.p) THEN \A i \in DOMAIN E.subobs : E.subobs[i].n = 0
            ELSE \E c \in SubCand : \A i \in DOMAIN c.l :
                   Agrees(E.subobs[i], IF c.l[i] = ZERO THEN ZERO ELSE SubhaloNumber(R, E, c.l[i], Scale(i)), Deterministic(i), 1),
         C21_field_number |->
            \E c \in FieldCand : \A i \in DOMAIN c.off :
                   IF ~HasField(E.p) THEN E.off[i].n = 0
                   ELSE Agrees(E.off[i], Times(c.off[i], R.norm + Scale(i)), Deterministic(i), E.planes),
         C21_two_halo |->
            \E c \in FieldCand : \A i \in DOMAIN c.on :
                   LET s == c.on[i]
                       w == IF ~HasField(E.p) THEN Times(s.lazar, R.boost) ELSE IF ~R.two THEN s.alone ELSE IF R.lazar THEN s.with_lazar ELSE s.with_plain
                   IN Agrees(E.on[i], Times(w, R.norm + Scale(i)), Deterministic(i), 2) ])

\* -- what each object is -----------------------------------------------------------
InRange(h, rg) == h.lm >= LnPow10(rg.lo) /\ h.lm < LnPow10(rg.hi)
Asked(h, rgs) == IF \E i \in DOMAIN rgs : InRange(h, rgs[i]) THEN (CHOOSE i \in DOMAIN rgs : InRange(h, rgs[i])) ELSE 0
\* the two bins of the fixed model; a strong cross section makes every halo evolve, a weak one none
\* (but subhalos, where their clocks are asked to run faster)
Fixed == <<[lo |-> R.lo, hi |-> 8000, certain |-> E.strong[1]], [lo |-> 8000, hi |-> R.hi, certain |-> E.strong[2]]>>
KindOf(h) ==
    IF h.lm >= R.threshold THEN (IF E.p \in {"CDM", "SIDM_core_collapse"} THEN R.galaxy ELSE "GALAXY")
    ELSE IF E.p \in SIDM
         THEN LET rgs == IF E.p = "SIDM_parametric_fixedbins" THEN Fixed ELSE IF h.sub THEN E.ranges_sub ELSE E.ranges_field
                  i == Asked(h, rgs)
              IN IF i > 0 /\ (rgs[i].certain \/ (h.sub /\ R.time)) THEN R.sidm ELSE "TNFW"
    ELSE R.profile[IF h.sub THEN 1 ELSE 2]
TKinds == /\ E.op = "kinds"
          /\ Consume([
               C21_profiles |-> \A i \in DOMAIN E.halos : E.halos[i].kind = KindOf(E.halos[i]),
               \* between the masses asked for (u: the lightest halo this dark matter can make)
               C21_masses |-> \A i \in DOMAIN E.halos : LET h == E.halos[i] IN
                                 /\ h.lm >= LnPow10(R.lo) - 50 /\ h.lm <= LnPow10(IF E.p = "CDMBinned" THEN 10700 ELSE R.hi) + 50
                                 /\ h.lm >= h.u - 1000,
               C21_clusters |-> (E.clusters > 0) = R.gc,
               C21_fluctuations |-> (E.flucs > 0) = R.flucs,
               C21_black_holes |-> (E.holes > 0) = R.holes])

\* -- how each object is built (looked: parts with scatter were drawn while the realization was made) --------------------------------------------------------
Index(h) == IF h.sub THEN 1 ELSE 2
HostValue == CASE R.host.by = "number" -> R.host.l
               [] R.host.by = "field" -> E.cfield
               [] OTHER -> NAN
ConcAs(h) == \E k \in DOMAIN h.conc : /\ h.conc[k].name = R.conc[Index(h)].name
                                      /\ h.conc[k].sc = R.conc[Index(h)].sc
                                      /\ NearL(h.c, h.conc[k].l, 300)
TruncAs(h) == LET t == R.trunc[Index(h)] IN
    IF t \in HostModels /\ h.sub /\ HostValue = NAN THEN TRUE
    ELSE \E k \in DOMAIN h.trunc : /\ h.trunc[k].name = t
                                   /\ (t \in HostModels => NearL(h.trunc[k].host, HostValue, 1000))
                                   /\ NearL(h.rt, h.trunc[k].l, 2000)
InfallAs(h) == \E k \in DOMAIN h.infall : /\ h.infall[k].name = R.infall.name
                                          /\ (R.infall.name # "INFALL_ZLENS" => h.infall[k].host = R.infall.host)
                                          /\ Near(h.zi, h.infall[k].z, 30)
TWired == /\ E.op = "wired"
          /\ Consume([
               C21_concentrations |-> \A i \in DOMAIN E.halos : (E.looked /\ R.conc[Index(E.halos[i])].sc # "off") \/ ConcAs(E.halos[i]),
               C21_truncations |-> \A i \in DOMAIN E.halos : E.halos[i].rt = NAN \/ (E.looked /\ R.trunc[Index(E.halos[i])] \in HostModels) \/ TruncAs(E.halos[i]),
               C21_infall |-> \A i \in DOMAIN E.halos : (E.halos[i].sub /\ (~E.looked \/ R.infall.name = "INFALL_ZLENS")) => InfallAs(E.halos[i])])

\* -- where ------------------------------------------------------------------------------
\* of E.n subhalos, so many within the radii that hold 1/8, 2/8, .. 7/8 of them
Spread(w, slack) == \A k \in DOMAIN w : Near(w[k], (E.n * k) \div 8, Binomial6(E.n, k, 8) + slack)
\* in projection, and along the line of sight (within3: as far from the middle of the host as that)
Follows(c) == Spread(c.within, E.n \div 100) /\ Spread(c.within3, E.n \div 200)
TPlace == /\ E.op = "place"
          /\ Consume([
               C21_depth |-> E.depth = (R.spatial = "PROJECTED_NFW") \/ E.n = 0,
               C21_places |->
                 IF E.n = 0 \/ (R.spatial = "PROJECTED_NFW" /\ HostValue = NAN) THEN TRUE
                 ELSE \E k \in DOMAIN E.cands : LET c == E.cands[k] IN
                        /\ c.name = R.spatial
                        /\ (R.spatial = "PROJECTED_NFW" => c.core = R.core /\ NearL(c.host, HostValue, 1000))
                        /\ Follows(c)])
TWorld == /\ E.op = "world"
          /\ Consume([
               C21_cosmology |-> \E k \in DOMAIN E.cosmos : E.cosmos[k].id = R.cosmo /\ NearL(E.kpc, E.cosmos[k].l, 3000),
               C21_redshifts |-> E.zl = E.zl_asked /\ E.zs = E.zs_asked,
               C21_planes |-> \E k \in DOMAIN E.spacings : E.spacings[k].spacing = R.spacing /\ E.strays[k] = 0,
               C21_cone |-> /\ E.rmax <= R.cone \div 2 + 5
                            /\ (E.n > 300 => E.rmax >= (R.cone \div 2) - (R.cone \div 20))])
\* every request is granted
TRaise == E.op = "raise" /\ Consume([C21_granted |-> FALSE])
TCusps == E.op = "cusps" /\ Consume([C21_granted |-> E.given])
TraceInit == LibInit
TraceNext == (l <= Len(Trace) /\ (TAmount \/ TKinds \/ TWired \/ TPlace \/ TWorld \/ TRaise \/ TCusps)) \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad, cov>>
==============================================================================
