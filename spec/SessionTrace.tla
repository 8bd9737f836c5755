---------------------------- MODULE SessionTrace -----------------------------
(* Sessions recorded from the real code.  A `fresh` event is a call made in a     *)
(* process that had made no other; `call`, `again` and `look` events belong to     *)
(* sessions and point (ref) at the fresh event of the same call and the same seed.  *)
(* The machine of Session.tla says what they must show: the value of the fresh      *)
(* call, and dictionaries as they were written.                                     *)
EXTENDS TraceLib

E == Trace[l]
SameNumber(a, b) == a = b \/ (Finite(a) /\ Finite(b) /\ Abs(a - b) <= 3)
Same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SameNumber(a[i], b[i])
Untouched(e) == e.after = e.before

TFresh == /\ E.op = "fresh"
          /\ Consume([C20_answers |-> E.ok, C20_caller |-> Untouched(E)])
TCall == /\ E.op \in {"call", "again"}
         /\ LET R == Trace[E.ref] IN
            Consume([C20_history |-> E.ok = R.ok /\ Same(E.obs, R.obs),
                     C20_caller |-> Untouched(E)])
\* what was left to be computed when it is looked at
TLook == /\ E.op = "look"
         /\ LET R == Trace[E.ref] IN
            Consume([C20_later |-> E.ok = R.lateok /\ Same(E.obs, R.late),
                     C20_caller |-> Untouched(E)])
TraceInit == LibInit
TraceNext == (l <= Len(Trace) /\ (TFresh \/ TCall \/ TLook)) \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad, cov>>
==============================================================================
