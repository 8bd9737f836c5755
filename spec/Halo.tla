-------------------------------- MODULE Halo --------------------------------
(* The life of one halo object: which of its random or expensive properties    *)
(* have been drawn so far (each at most once, whatever is read and in whatever *)
(* order), the normalization it carries, and where it sits.                    *)
EXTENDS Integers, Sequences, FiniteSets, LogArith

\* what can be drawn: infall redshift, bound mass, concentration, truncation
AllDraws == {"zinf", "mb", "c", "trunc"}

Kinds == {"NFW", "TNFW", "TNFWG", "TNFWC", "EVOLVING", "CC", "CCBH", "GNFW", "PJAFFE", "CNFW",
          "SPL", "EMUL", "PARAMS", "SIS", "MASSIVE", "HYBRID"}
Wrappers == {"SIS", "MASSIVE", "HYBRID"}
Truncated == {"TNFW", "TNFWG"}
\* profiles whose density normalization the user may rescale
Rescalable == {"NFW", "TNFW", "TNFWG", "TNFWC", "EVOLVING", "CNFW", "EMUL", "PARAMS", "HYBRID"}

Readable(kind, sub) ==
    (IF kind \in {"EMUL", "PARAMS"} THEN {"c", "args", "lens", "phys"}
     ELSE CASE kind \in {"NFW"} -> {"zeval", "c", "nfw", "args", "lens", "vmax", "mass"}
            [] kind \in {"TNFW", "TNFWG"} -> {"zeval", "c", "nfw", "args", "lens", "phys", "vmax", "mass", "rho"}
            [] kind \in {"TNFWC", "EVOLVING"} -> {"zeval", "c", "nfw", "args", "lens", "phys", "vmax", "mass"}
            [] kind \in {"CC", "CCBH", "GNFW"} -> {"zeval", "c", "nfw", "args", "lens"}
            [] kind = "PJAFFE" -> {"zeval", "c", "args", "lens", "phys"}
            [] kind = "CNFW" -> {"zeval", "c", "nfw", "args", "lens"}
            [] kind = "SPL" -> {"zeval", "args", "lens"}
            [] kind = "SIS" -> {"args", "lens"}
            [] kind = "MASSIVE" -> {"c", "args", "lens"}
            [] kind = "HYBRID" -> {"c", "nfw", "args", "lens", "vmax"}
            [] OTHER -> {})
    \cup (IF sub /\ kind \notin {"EMUL", "PARAMS", "SIS", "MASSIVE"} THEN {"age"} ELSE {})
    \cup (IF sub /\ kind \in {"TNFW", "TNFWG", "PARAMS"} THEN {"bound"} ELSE {})
    \cup (IF sub /\ kind = "TNFWG" THEN {"mbg"} ELSE {})

\* what a read-out depends on; it has to have been drawn once the read-out is known
ZNeed(sub) == IF sub THEN {"zinf"} ELSE {}
CNeed(sub) == ZNeed(sub) \cup {"c"}
TNeed(kind, sub) == IF kind = "TNFWG" /\ sub THEN {"trunc", "mb"}
                    ELSE IF kind \in Truncated \cup Wrappers THEN {"trunc"} ELSE {}
Needs(kind, sub, what) ==
    IF kind \in {"EMUL", "PARAMS"} THEN {}
    ELSE CASE what = "zeval" -> ZNeed(sub)
           [] what = "age" -> {"zinf"}
           [] what \in {"c", "nfw"} -> CNeed(sub)
           [] what = "mbg" -> {"mb"}
           [] OTHER -> CNeed(sub) \cup TNeed(kind, sub)

New(kind, sub, x, y, ft) == [kind |-> kind, sub |-> sub, drawn |-> {}, norm |-> 0, once |-> FALSE,
                             x |-> x, y |-> y, ft |-> ft]

\* -- normalization: factors multiply, but only one logged factor is accepted ------
RescaleIt(h, f, force, log) ==
    IF force \/ ~h.once THEN [h EXCEPT !.norm = @ + f, !.once = @ \/ log] ELSE h
\* -- drawing: the truncation model may rescale the halo when it is drawn -----------
DrawOne(h, q) == IF q \in h.drawn THEN h
                 ELSE LET g == [h EXCEPT !.drawn = @ \cup {q}]
                      IN IF q = "trunc" /\ h.ft # 0 THEN RescaleIt(g, h.ft, FALSE, TRUE) ELSE g
RECURSIVE DrawAll(_, _)
DrawAll(h, Q) == IF Q = {} THEN h ELSE LET q == CHOOSE q \in Q : TRUE IN DrawAll(DrawOne(h, q), Q \ {q})
ReadIt(h, what) == DrawAll(h, Needs(h.kind, h.sub, what))
MoveIt(h, dx, dy) == [h EXCEPT !.x = @ + dx, !.y = @ + dy]
\* once a logged factor is in, no unforced factor is
Locked(h) == h.once
=============================================================================
