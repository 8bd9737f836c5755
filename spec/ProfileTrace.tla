---------------------------- MODULE ProfileTrace ----------------------------
(* Views of real halos against the distribution their lens model describes.       *)
EXTENDS Profile, TraceLib

E == Trace[l]
All(tol, Want(_)) == \A i \in DOMAIN E.obs : NearL(E.obs[i], Want(i), tol)
\* tabulated distances, parameters rounded for the lens model, quadrature
Slack == 12000
TView == /\ E.op = "view"
         /\ Consume(
              CASE E.view = "rho"     -> [C30_density |-> All(Slack, LAMBDA i : E.rho[i])]
                [] E.view = "rholens" -> [C30_lensdensity |-> All(Slack, LAMBDA i : E.rho[i])]
                [] E.view = "parts"   -> [C30_components |-> Len(E.obs) = Len(E.q.want) /\ All(Slack, LAMBDA i : E.q.want[i])]
                [] E.view = "m3"      -> [C30_sphere |-> All(Slack, LAMBDA i : E.m3[i])]
                [] E.view = "m2"      -> [C30_cylinder |-> \A i \in DOMAIN E.obs : /\ E.obs[i] # NAN
                                                                                  /\ E.obs[i] >= E.cut[i] - 2 * Slack
                                                                                  /\ E.obs[i] <= E.m2k[i] + 2 * Slack]
                [] E.view = "angle"   -> [C30_deflection |-> All(Slack, LAMBDA i : AngleLaw(E.m2[i], E.r[i], E.q))]
                [] E.view = "kappa"   -> [C30_convergence |-> All(2 * Slack, LAMBDA i : KappaLaw(E.q.want[i], E.q))]
                [] E.view = "surface" -> [C30_surface |-> All(Slack, LAMBDA i : E.q.want[i])]
                [] E.view = "slope"   -> [C30_slope |-> \A i \in DOMAIN E.obs : Near(E.obs[i], E.q.want[i], 20000)]
                [] OTHER              -> [C30_view |-> FALSE])
TScaled == /\ E.op = "scaled"
           /\ Consume([C30_scaled |-> \A i \in DOMAIN E.before : NearL(E.after[i], E.before[i] + E.norm, 100)])
TSetup == /\ E.op = "setup"
          /\ Consume([C30_setup |-> Len(E.obs) = Len(E.want) /\ \A i \in DOMAIN E.obs :
                                       IF i <= 4 THEN Near(E.obs[i], E.want[i], 2) ELSE NearL(E.obs[i], E.want[i], E.tol)])
TSlopeOf == /\ E.op = "slopeof" /\ Consume([C30_radius |-> Near(E.got, E.want, 300)])
TShape == /\ E.op = "shape" /\ Consume([C30_shape |-> NearL(E.got, Shape(E.rhos, E.x, E.x1, E.t, E.tx), 20)])
\* every real root, and nothing else (a double root may be lost or found twice: rounding decides which)
TRoots == /\ E.op = "roots"
          /\ Consume([C30_roots |-> /\ \A i \in DOMAIN E.got : \E k \in DOMAIN E.want : Near(E.got[i], 1000 * E.want[k], 3)
                                    /\ \A k \in DOMAIN E.want : E.mult[k] = 2 \/ \E i \in DOMAIN E.got : Near(E.got[i], 1000 * E.want[k], 3)])
TraceNext == \/ (l <= Len(Trace) /\ (TView \/ TScaled \/ TSetup \/ TSlopeOf \/ TShape \/ TRoots))
             \/ Finish
TraceSpec == LibInit /\ [][TraceNext]_<<l, bad, cov>>
=============================================================================
