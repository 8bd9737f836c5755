------------------------------ MODULE TraceLib ------------------------------
(* Trace validation, shared by every <Subsystem>Trace module.  A trace is a    *)
(* sequence of events recorded from the real code.  The machine consumes one  *)
(* event per step, never blocks, and judges each event by a record of named   *)
(* clauses (clause name |-> BOOLEAN): `bad` collects the clauses that failed, *)
(* `cov` counts how often each clause was evaluated, so that a verdict names  *)
(* what failed and a vacuous check is visible.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VTRACE)

VARIABLES l, bad, cov

Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
RangeOf(s) == {s[i] : i \in DOMAIN s}
SumSeq(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i-1] + s[i] IN F[Len(s)]
Has(r, f) == f \in DOMAIN r

\* sentinel for "not a finite number" written by the recorder
NAN == 2147483647
Finite(x) == Abs(x) < 2000000000

FailedOf(cl) == {c \in DOMAIN cl : ~cl[c]}
SetToSeqAny(S) ==
    LET F[T \in SUBSET S] == IF T = {} THEN <<>>
                             ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o F[T \ {x}]
    IN F[S]
BadOf(i, op, cl) ==
    LET f == FailedOf(cl) IN
    IF f = {} THEN <<>>
    ELSE LET s == SetToSeqAny(f) IN [k \in 1..Len(s) |-> [l |-> i, op |-> op, clause |-> s[k]]]
CovOf(old, cl) == [c \in DOMAIN old \cup DOMAIN cl |->
                     (IF c \in DOMAIN old THEN old[c] ELSE 0) + (IF c \in DOMAIN cl THEN 1 ELSE 0)]
NoCov == [c \in {} |-> 0]

LibInit == l = 1 /\ bad = <<>> /\ cov = NoCov
Consume(cl) == /\ l <= Len(Trace)
               /\ bad' = IF Len(bad) > 300 THEN bad ELSE bad \o BadOf(l, Trace[l].op, cl)
               /\ cov' = CovOf(cov, cl)
               /\ l' = l + 1
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.VOUT, [bad |-> bad, cov |-> cov, n |-> Len(Trace)])
          /\ l' = l + 1
          /\ UNCHANGED <<bad, cov>>
=============================================================================
