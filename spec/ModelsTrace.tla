----------------------------- MODULE ModelsTrace -----------------------------
(* Recorded answers of concentration, truncation and infall models and of the    *)
(* functions that find models by name.                                            *)
EXTENDS Models, TraceLib
VARIABLES cf        \* model instance -> its configuration
E == Trace[l]
tvars == <<l, bad, cov, cf>>

\* observed counts below thresholds, n draws, probabilities in 10^-5
Counts6(n, below, p) == \A i \in DOMAIN below :
   Abs(below[i] - (n * p[i]) \div 100000) <= Binomial6(n, ClampTo(p[i], 0, 100000), 100000) + 2
P5(x) == ClampTo(x, 0, 1000000) \div 10

\* -- C16 --
TNew == /\ E.op = "cnew"
        /\ Consume(NoCov)
        /\ cf' = [i \in DOMAIN cf \cup {E.i} |-> IF i = E.i THEN Config(E.name, E.base, E.par, E.sup, E.sigma) ELSE cf[i]]
TVal == /\ E.op = "cval"
        /\ LET c == cf[E.i]
           IN IF Refused(c, E.q)
              THEN Consume([C16_refused |-> ~E.ok])
              ELSE Consume([C16_answers |-> E.ok]
                   @@ (IF E.ok THEN [C16_floor |-> c.base = "CONST" \/ \A k \in DOMAIN E.obs : E.obs[k] >= LnFloor - 2]
                               @@ (IF c.sigma = 0 \/ E.quiet
                                   THEN [C16_relation |-> \A k \in DOMAIN E.obs : NearL(E.obs[k], Median(c, E.q), E.tol)] ELSE NoCov)
                       ELSE NoCov))
        /\ UNCHANGED cf
TScat == /\ E.op = "cscat"
         /\ LET c == cf[E.i]
            IN Consume([C16_scatter |-> Counts6(E.n, E.below, [k \in DOMAIN E.t |-> P5(BelowConc(c, E.q, E.t[k]))])])
         /\ UNCHANGED cf
TBuild == /\ E.op = "cbuild"
          /\ Consume([C16_unphysical |-> E.ok = ~E.unphysical])
          /\ UNCHANGED cf

\* -- C17 --
TTrunc == /\ E.op = "trunc"
          /\ Consume([c \in {"C17_" \o E.kind} |-> NearL(E.obs, TruncLaw(E.kind, E.par, E.q), E.tol)])
          /\ UNCHANGED cf
TFolded == /\ E.op = "folded"
           /\ Consume([C17_scatter |-> Counts6(E.n, E.below, [k \in DOMAIN E.t |-> P5(FoldedBelow(E.t[k], E.s))])])
           /\ UNCHANGED cf
TTidal == /\ E.op = "tidal"
          /\ Consume([C17_bound |-> NearL(E.q.lmb, TotalMass(E.q), E.tol)]
                     @@ (IF E.track THEN [C17_track |-> NearL(E.q.norm, TrackNorm(E.q), E.tol)] ELSE NoCov)
                     @@ [C17_stripped |-> E.q.norm <= 2 /\ (E.q.lmb <= E.q.m + 2)])
          /\ UNCHANGED cf
TKeeley == /\ E.op = "keeley"
           \* the mass inside the virial radius is the bound mass, within the range of the table of fractions
           /\ Consume([C17_fraction |-> NearL(E.frac, ClampTo(E.want, -13815510, -2303), E.tol)])
           /\ UNCHANGED cf
TDrawn == /\ E.op = "drawn"
          /\ Consume([c \in {"C17_" \o E.what} |->
               Counts6(E.n, E.below, [k \in DOMAIN E.t |->
                 CASE E.what = "boundpdf" -> P5(Phi(DivE6(E.t[k] - E.mean6, E.sd6)))
                   [] E.what = "approx" -> TruncNormBelow(E.t[k], ApproxAt(ApproxLoc, E.z3), ApproxAt(ApproxScale, E.z3), -10000000, 0)
                   [] E.what = "massloss" -> P5(JohnsonBelow(E.a6, E.b6, E.t[k]))])]
             @@ (IF E.what = "massloss" THEN [C17_calibrated |-> LET w == Inside(E.kind, E.c6, E.t6, E.h6)
                                                IN \A k \in 1..3 : Near(E.at[k], w[k], 2),
                                                C17_atmost |-> E.hi <= 1] ELSE NoCov))
          /\ UNCHANGED cf

\* -- C18 --
TInfall == /\ E.op = "infall"
           /\ LET k == E.kind
              IN Consume(
                   [C18_range |-> IF k = "ZERO" THEN E.lo = 0 /\ E.hi = 0
                                  ELSE IF k = "ZLENS" THEN E.lo = E.zl /\ E.hi = E.zl
                                  ELSE E.lo >= E.zl /\ E.hi <= E.zl + (IF k = "TABLE" THEN 15920000 ELSE 15000000)]
                   @@ (IF k \in {"HYBRID", "DIRECT", "CLUSTER"}
                       THEN [C18_distribution |-> Counts6(E.n, E.below, [j \in DOMAIN E.t |->
                                InfallBelow(k, LogRatio(E.lm, E.lhost), E.t[j])])]
                       ELSE IF k = "TABLE"
                       THEN [C18_distribution |-> Counts6(E.n, E.below, [j \in DOMAIN E.t |-> Cdf2024(E.t[j])])]
                       ELSE NoCov))
           /\ UNCHANGED cf
TInfallHost == /\ E.op = "infallhost"
               /\ Consume([C18_host |-> E.ok = (E.lhost3 >= 14000 /\ E.lhost3 <= 15000)])
               /\ UNCHANGED cf

\* -- C19 --
TName == /\ E.op = "name"
         /\ LET r == Resolve(E.reg, E.name, E.given)
            IN Consume([C19_known |-> E.ok = r.ok, C19_caller |-> E.kept]
                 @@ (IF r.ok /\ E.ok
                     THEN (IF E.reg = "infall" THEN NoCov ELSE [C19_class |-> E.cls = r.cls])
                          @@ (IF E.reg \in {"concentration", "massfunction", "truncation"}
                              THEN [C19_parameters |-> RangeOf(E.keys) = r.keys
                                      /\ \A k \in DOMAIN r.par : k \in DOMAIN E.par /\ E.par[k] = r.par[k],
                                    C19_fresh |-> ~E.shared] ELSE NoCov)
                          @@ (IF Replaces(E.reg, E.name) = {"dlogT_dlogk"} /\ E.reg = "massfunction"
                              THEN [C19_stucker |-> \A i \in 1..3 :
                                      NearL(Suppression(E.st.la, E.st.b6, E.st.c6, StuckerMass(i, E.st.ls)), StuckerLnF[i], 2500)]
                              ELSE NoCov)
                     ELSE NoCov))
         /\ UNCHANGED cf
TRaise == /\ E.op = "raise"
          /\ Consume([c \in {E.clause} |-> E.outcome = E.want])
          /\ UNCHANGED cf
TSame == /\ E.op = "same" /\ Consume([c \in {E.clause} |-> NearL(E.a, E.b, E.tol)]) /\ UNCHANGED cf
TReset == /\ E.op = "reset" /\ Consume(NoCov) /\ cf' = <<>>

TraceInit == LibInit /\ cf = <<>>
TraceNext == \/ (l <= Len(Trace) /\ (TNew \/ TVal \/ TScat \/ TBuild \/ TTrunc \/ TFolded \/ TTidal \/ TKeeley \/ TDrawn
                                     \/ TInfall \/ TInfallHost \/ TName \/ TRaise \/ TSame \/ TReset))
             \/ (Finish /\ UNCHANGED cf)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
