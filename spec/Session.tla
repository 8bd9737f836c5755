------------------------------- MODULE Session -------------------------------
(* A user's session.  The user keeps dictionaries of options and hands them to    *)
(* one function after another, or leaves an argument out and gets the default.     *)
(* Every function makes a realization, parts of which are computed only when they   *)
(* are looked at, perhaps long after other realizations, in other cosmologies, were *)
(* made.  What the user sees must depend on the call alone:                          *)
(*     Meaning(c) - the value of a call on the dictionaries as the user wrote them.  *)
(* The functions complete the options they were given (a host mass, a cutoff, a      *)
(* cosmology) before they use them.  Copy and Keep are the two disciplines that make *)
(* a session history-free: options are completed in a private copy, and a            *)
(* realization keeps the cosmology it was made in.                                   *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Copy, Keep
VARIABLES own, defaults, current, made

NONE == 0
\* a dictionary of options: host mass, cutoff mass, something of the user's
Pristine(e) == IF e = "own" THEN [host |-> NONE, cutoff |-> NONE, extra |-> 7]
                            ELSE [host |-> NONE, cutoff |-> NONE, extra |-> NONE]
\* how each kind of function completes its options: in place of what it finds, or only where nothing is
Completed(d, c) ==
    CASE c.kind = "host" -> [d EXCEPT !.host = c.m]
      [] c.kind = "host if none" -> [d EXCEPT !.host = IF d.host = NONE THEN 130 ELSE d.host]
      [] c.kind = "cutoff" -> [d EXCEPT !.cutoff = c.m]
      [] OTHER -> d
\* a function without a cutoff refuses an option it does not know
Value(d, c) == IF c.kind = "cold" /\ d.cutoff # NONE THEN [ok |-> FALSE, d |-> d] ELSE [ok |-> TRUE, d |-> Completed(d, c)]
Meaning(c) == Value(Pristine(c.dict), c)

Init == /\ own = Pristine("own") /\ defaults = Pristine("default")
        /\ current = 1 /\ made = <<>>
Call(c) ==
    LET found == IF c.dict = "own" THEN own ELSE defaults
        left == IF Copy THEN found ELSE Completed(found, c)
    IN /\ made' = Append(made, [call |-> c, value |-> Value(found, c), cosmo |-> c.cosmo, seen |-> NONE])
       /\ own' = IF c.dict = "own" THEN left ELSE own
       /\ defaults' = IF c.dict = "own" THEN defaults ELSE left
       /\ current' = c.cosmo
\* looking at a part that had not been computed yet
Look(i) == /\ i \in DOMAIN made /\ made[i].seen = NONE
           /\ made' = [made EXCEPT ![i].seen = IF Keep THEN made[i].cosmo ELSE current]
           /\ UNCHANGED <<own, defaults, current>>

Untouched == own = Pristine("own")
DefaultsStay == defaults = Pristine("default")
CallAlone == \A i \in DOMAIN made : made[i].value = Meaning(made[i].call)
OwnCosmology == \A i \in DOMAIN made : made[i].seen \in {NONE, made[i].call.cosmo}
Repeatable == \A i, j \in DOMAIN made : made[i].call = made[j].call => made[i].value = made[j].value
==============================================================================
