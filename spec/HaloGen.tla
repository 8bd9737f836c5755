------------------------------- MODULE HaloGen -------------------------------
(* Histories of several halos for the replay driver: made, read, rescaled, moved, *)
(* wrapped, in any order; only operations the Halo machine allows.                *)
EXTENDS Halo, TLC, Json
CONSTANTS Steps
VARIABLES hs, hist, done
Op(o, i, k, w, a, g, lg) == [op |-> o, h |-> i, kind |-> k, what |-> w, a |-> a, g |-> g, lg |-> lg]
Init == hs = <<>> /\ hist = <<>> /\ done = FALSE
Ext(o) == hist' = Append(hist, o)
Base(k) == k \notin Wrappers
Used(i) == \E j \in DOMAIN hist : hist[j].op = "wrap" /\ hist[j].a = i
Make == \E k \in Kinds : \E s \in BOOLEAN : \E ft \in {0, 1} :
          /\ Len(hs) < 5 /\ Base(k) /\ (k \in {"EMUL", "PARAMS", "TNFWG"} => s)
          /\ (Len(hs) = 0 => k \in Truncated)
          /\ (ft = 1 => k \in Truncated)
          /\ Ext(Op("new", Len(hs) + 1, k, "", ft, s, FALSE))
          /\ hs' = Append(hs, New(k, s, 0, 0, ft))
Wrap == \E i \in DOMAIN hs : \E k \in Wrappers :
          /\ Len(hs) < 6 /\ hs[i].kind = "TNFW" /\ hs[i].norm = 0 /\ (k = "HYBRID" => hs[i].ft = 0)
          /\ ~Used(i)
          /\ \E tag \in 1..6 : Ext(Op("wrap", Len(hs) + 1, k, ToString(tag), i, hs[i].sub, FALSE))
          /\ hs' = Append(hs, New(k, hs[i].sub, 0, 0, 0))
Reads == \E i \in DOMAIN hs : \E w \in Readable(hs[i].kind, hs[i].sub) : \E again \in 0..3 :
          Ext(Op("read", i, hs[i].kind, w, again, FALSE, FALSE)) /\ UNCHANGED hs
Resc == \E i \in DOMAIN hs : \E f \in {30, 125} : \E force, log \in BOOLEAN :
          /\ hs[i].kind \in Rescalable /\ ~Used(i)
          /\ Ext(Op("rescale", i, hs[i].kind, "", f, force, log))
          /\ hs' = [hs EXCEPT ![i] = RescaleIt(@, f, force, log)]
Moves == \E i \in DOMAIN hs : \E d \in {-37, 5, 64} :
          ~Used(i) /\ Ext(Op("move", i, hs[i].kind, "", d, FALSE, FALSE)) /\ UNCHANGED hs
SetZ == \E i \in DOMAIN hs : \E z \in {900, 1500, 4200} :
          /\ hs[i].sub /\ Base(hs[i].kind) /\ hs[i].kind \notin {"EMUL", "PARAMS"}
          /\ \A j \in DOMAIN hist : ~(hist[j].op \in {"read", "setz"} /\ hist[j].h = i)
          /\ ~Used(i)
          /\ Ext(Op("setz", i, hs[i].kind, "", z, FALSE, FALSE)) /\ UNCHANGED hs
Act == Len(hist) < Steps /\ UNCHANGED done
       /\ IF Len(hs) < 2 THEN Make ELSE (Make \/ Wrap \/ Reads \/ Resc \/ Moves \/ SetZ)
Stop == Len(hist) = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<hs, hist>>
Next == Act \/ Stop
Spec == Init /\ [][Next]_<<hs, hist, done>>
Emit == done => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
