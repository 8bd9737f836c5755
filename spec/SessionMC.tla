------------------------------ MODULE SessionMC ------------------------------
EXTENDS Session
CONSTANTS MaxCalls
Calls == [kind : {"host", "host if none", "cutoff", "cold"}, m : {133, 140}, dict : {"own", "default"}, cosmo : {1, 2}]
Next == \/ Len(made) < MaxCalls /\ \E c \in Calls : Call(c)
        \/ \E i \in DOMAIN made : Look(i)
Spec == Init /\ [][Next]_<<own, defaults, current, made>>
==============================================================================
