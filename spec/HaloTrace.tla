------------------------------ MODULE HaloTrace ------------------------------
(* Recorded histories of real halos, their mass laws and the batch calculations. *)
EXTENDS HaloLaw, TraceLib

VARIABLES hs        \* halo id -> machine state plus what was read first
E == Trace[l]
tvars == <<l, bad, cov, hs>>

\* a read-out as (2 ln v) values with the power of the normalization taken out
Descale(vals, norm) == [i \in DOMAIN vals |-> IF vals[i].v = NAN THEN NAN ELSE vals[i].v - vals[i].p * norm]
SameVals(a, b, tol) == DOMAIN a = DOMAIN b /\ \A i \in DOMAIN a : a[i] = b[i] \/ (a[i] # NAN /\ b[i] # NAN /\ Near(a[i], b[i], tol))
KeysOf(vals) == [i \in DOMAIN vals |-> vals[i].k]

Extra == [seen |-> [w \in {} |-> <<>>], zset |-> 0, base |-> 0]
Fresh == New(E.kind, E.sub, E.x, E.y, E.ft)
DrawnNow == RangeOf(E.drawn)
\* the machine catches up with what the code drew during this event
Caught(h) == [DrawAll([kind |-> h.kind, sub |-> h.sub, drawn |-> h.drawn, norm |-> h.norm, once |-> h.once,
                       x |-> h.x, y |-> h.y, ft |-> h.ft], DrawnNow \ h.drawn)
              EXCEPT !.drawn = @ \cup h.drawn]
ZEval(h) == IF ~h.sub THEN E.zh ELSE IF h.zset # 0 THEN h.zset ELSE E.zdrawn
Common(h, g) == [
    C07_once |-> \A i \in DOMAIN E.times : E.times[i] <= 1,
    C07_kept |-> h.drawn \ {"zinf"} \subseteq DrawnNow \cup (IF h.zset # 0 THEN {"zinf"} ELSE {}),
    C07_where |-> \A i \in DOMAIN E.cargs : E.cargs[i].mass /\ Near(E.cargs[i].z, ZEval(h), 2),
    C08_norm |-> Near(E.norm, g.norm, 6)]

THNew == /\ E.op = "hnew"
         /\ Consume([C07_lazy |-> E.drawn = <<>>])
         /\ hs' = [i \in DOMAIN hs \cup {E.h} |-> IF i = E.h THEN Fresh @@ Extra ELSE hs[i]]
THWrap == /\ E.op = "hwrap"
          /\ Consume([C07_once |-> \A i \in DOMAIN E.times : E.times[i] <= 1,
                      C07_identity |-> E.same])
          /\ hs' = [i \in DOMAIN hs \cup {E.h} |-> IF i = E.h
                       THEN [Fresh EXCEPT !.drawn = DrawnNow] @@ [Extra EXCEPT !.zset = hs[E.base].zset, !.base = E.base] ELSE hs[i]]
THSetZ == /\ E.op = "hsetz"
          /\ Consume(NoCov)
          /\ hs' = [hs EXCEPT ![E.h].zset = E.z]
THMove == /\ E.op = "hmove"
          /\ LET h == hs[E.h] g == Caught(h)
             IN /\ Consume(Common(h, g))
                \* the components of a hybrid halo move with it
                /\ LET along == IF h.kind = "HYBRID" THEN {E.h, h.base} ELSE {E.h}
                   IN hs' = [i \in DOMAIN hs |-> IF i \in along THEN [hs[i] EXCEPT !.x = @ + E.dx, !.y = @ + E.dy] ELSE hs[i]]
THRescale == /\ E.op = "hrescale"
             /\ LET h == hs[E.h] g == RescaleIt(h, E.f, E.force, E.log)
                IN /\ Consume(Common(h, g))
                   /\ hs' = [hs EXCEPT ![E.h] = g]
THRead ==
    /\ E.op = "hread"
    /\ LET h == hs[E.h]
           g == Caught(h)
           vals == Descale(E.vals, g.norm)
           first == IF E.what \in DOMAIN h.seen THEN h.seen[E.what] ELSE [k |-> KeysOf(E.vals), v |-> vals]
           need == Needs(h.kind, h.sub, E.what) \ (IF h.zset # 0 THEN {"zinf"} ELSE {})
           have == DrawnNow
           scaled == \E i \in DOMAIN E.vals : E.vals[i].p > 0
           kept == first.k = KeysOf(E.vals) /\ SameVals(first.v, vals, IF E.what = "bound" THEN 2000 ELSE 8)   \* the bound mass may come from the rounded lens model
       IN /\ Consume(Common(h, g)
              @@ [C07_drawn |-> need \subseteq have]
              @@ (IF scaled THEN [C08_scaled |-> kept] ELSE [C07_same |-> kept])
              @@ (IF E.what = "c" /\ "c" \in have THEN [C07_concentration |-> vals[1] = NAN \/ Near(E.vals[1].v, E.dc, 4)] ELSE NoCov)
              @@ (IF E.what = "zeval" THEN [C07_redshift |-> Near(E.zval, ZEval(h), 2)] ELSE NoCov)
              @@ (IF E.what = "age" THEN [C07_age |-> Near(E.age, E.agewant, 20000)] ELSE NoCov)
              @@ (IF E.what = "args" /\ h.kind \in Truncated
                  THEN [C07_truncation |-> Near(E.vals[2].v, E.drt, 4)] ELSE NoCov)
              @@ (IF E.what = "mbg" THEN [C07_bound |-> Near(E.vals[1].v, E.dmb, 4)] ELSE NoCov)
              @@ (IF E.what = "lens" THEN [C08_centre |-> \A i \in DOMAIN E.cx :
                       Near(E.cx[i], g.x, 51) /\ Near(E.cy[i], g.y, 51)] ELSE NoCov))
          /\ hs' = [hs EXCEPT ![E.h] = [seen |-> (E.what :> first) @@ h.seen, zset |-> h.zset, base |-> h.base] @@ g]
THReset == /\ E.op = "hreset" /\ Consume(NoCov) /\ hs' = <<>>

\* -- C24 --------------------------------------------------------------------------
TLaw == /\ E.op = "law"
        /\ Consume([c \in {"C24_" \o E.law} |-> NearL(E.obs, LawWant(E.law, E.q), E.tol)])
        /\ UNCHANGED hs
\* -- C28 --------------------------------------------------------------------------
TBatch == /\ E.op = "batch"
          /\ Consume([c \in {"C28_" \o E.what} |->
                       Len(E.batch) = Len(E.single) /\ \A i \in DOMAIN E.batch : NearL(E.batch[i], E.single[i], E.tol)])
          /\ UNCHANGED hs
\* two samples of a random quantity: counts below common thresholds, n draws each
TBatchDist == /\ E.op = "batchdist"
              /\ Consume([c \in {"C28_" \o E.what} |-> \A i \in DOMAIN E.below1 :
                            Abs(E.below1[i] - E.below2[i]) <= SameSample6(E.n, E.below1[i] + E.below2[i])])
              /\ UNCHANGED hs
TKeep == /\ E.op = "batchkeep"
         /\ Consume([c \in {"C28_" \o E.what} |-> E.before = E.after])
         /\ UNCHANGED hs

TRaise == /\ E.op = "raise"
          /\ Consume([c \in {E.clause} |-> E.outcome = E.want])
          /\ UNCHANGED hs

TraceInit == LibInit /\ hs = <<>>
TraceNext == \/ (l <= Len(Trace) /\ (THNew \/ THWrap \/ THSetZ \/ THMove \/ THRescale \/ THRead \/ THReset
                                     \/ TLaw \/ TBatch \/ TBatchDist \/ TKeep \/ TRaise))
             \/ (Finish /\ UNCHANGED hs)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
