------------------------------ MODULE ExtTrace ------------------------------
(* Recorded conversions of real realizations, and the populations added to them. *)
EXTENDS Ext, LogArith, TraceLib
VARIABLES known     \* what every object looked like when it was last read: id -> [kept, lens]
E == Trace[l]
tvars == <<l, bad, cov, objs, known>>

\* -- an object is itself before and after it is read, whatever is made out of it -----
SameAs(k, o) == k.kept = o.kept /\ (k.lens = 0 \/ o.lens = 0 \/ k.lens = o.lens)
Learn(seq) == LET new == {seq[i].id : i \in DOMAIN seq}
                  rec(d) == LET i == CHOOSE i \in DOMAIN seq : seq[i].id = d IN [kept |-> seq[i].kept, lens |-> seq[i].lens]
              IN known' = [d \in DOMAIN known \cup new |-> IF d \in new THEN rec(d) ELSE known[d]]
Untouched(seq) == \A i \in DOMAIN seq : seq[i].id \in DOMAIN known => SameAs(known[seq[i].id], seq[i])

Tn(o) == o.kind = "TNFW"
Fields(o) == [id |-> o.id, kind |-> o.kind, lm |-> o.lm, sub |-> o.sub, t1 |-> o.t1, t2 |-> o.t2]
Seq2(s) == [i \in DOMAIN s |-> Fields(s[i])]
New(i) == E.new[i]
Old(i) == E.old[i]
Changed == {i \in DOMAIN E.new : i \in DOMAIN E.old /\ New(i).id # Old(i).id}
Both(a, b, tol) == a = 0 \/ b = 0 \/ (a # NAN /\ b # NAN /\ Near(a, b, tol))

\* what a converted halo keeps of the one it was made of
SameHalo(o, q) == /\ q.kept = o.kept
                  /\ Both(o.c, q.c, 8) /\ Both(o.zi, q.zi, 2)
BoundSame(o, q) == q.kind \in {"GNFW", "SPL"} \/ Both(o.b, q.b, 3000)
\* -- the parametric model: radii in 1/10000 of the scale radius of the NFW halo ------------
\* tau: 1/10000 of t/tc, ln: micro-nepers of tau + 0.001
Part(x, y) == (x * y) \div 10000
RsLaw(tau, ln) == 11329 - Part(5182, tau) + Part(3027, Part(tau, tau)) - Part(4005, Part(Part(tau, tau), tau)) + ((ln \div 1000) * 1329) \div 6908
RcLaw(tau) == Part(10642, Root(tau * 10000)) - Part(13321, tau) + Part(4311, Part(tau, tau)) - Part(1481, Part(Part(tau, tau), tau))
              + Part(245, Part(Part(tau, tau), Part(tau, tau)))
HalfRs == 8861
HalfRc == RcLaw(5000)
LnLate(tau) == LET d == tau - 5000 IN -(Part(4700, d) + Part(24000, Part(Part(d, d), d)))    \* 1/10000 nepers
\* rs, rc of q against the law
Radii(q) == LET t == Min2(q.tau, 16000) IN
    IF t <= 10000 THEN Near(q.rs, RsLaw(t, q.lntau), 30) /\ Near(q.rc, RcLaw(t), 40)
    ELSE /\ NearL(q.lnrs, -120900 + 100 * LnLate(t), 6000)
         /\ Near(q.rc, Max2(1, HalfRc - Part(2800, t - 5000)), 40)

Tc(i) == IF E.how = "timescale" THEN (IF Bin(E.bins, Old(i).lm) = 0 THEN 0 ELSE E.tcs[Bin(E.bins, Old(i).lm)]) ELSE E.tcs[i]
SidmRule(o, i) == Sidm(o, [E.p EXCEPT !.tc = Tc(i)])
Outside == {i \in DOMAIN E.old : E.bins # <<>> /\ Bin(E.bins, Old(i).lm) = 0}
Evaluated(i) == Tn(Old(i)) /\ E.p.mode # "none"
Tau(i) == IF E.p.mode = "ratio" THEN 10 * E.p.ratio ELSE ((EffAge(Old(i), E.p.lam) * 100) \div Tc(i)) * 100
MassTol(q) == IF q.kind = "CNFW" THEN 0 ELSE 12000

TSidm ==
  /\ E.op = "esidm"
  /\ IF E.raised # "ok"
     THEN /\ Consume([C14_outside_refused |-> IF E.raised = "range" THEN Outside # {} ELSE TRUE])
          /\ UNCHANGED known
     ELSE /\ Consume([
            C14_outside_refused |-> \A i \in Outside : ~Tn(Old(i)),
            C14_decision |-> Converts(Seq2(E.old), Seq2(E.new), SidmRule),
            C14_same_halo |-> \A i \in Changed : SameHalo(Old(i), New(i)) /\ BoundSame(Old(i), New(i)) /\ Both(Old(i).rt, New(i).rt, 400),
            C14_mass |-> \A i \in Changed : New(i).kind \in {"TNFWC", "EVOLVING"} => Near(Old(i).mr, New(i).mr, 12000),
            C14_collapsed_mass |-> \A i \in Changed : New(i).kind = "CC" => Near(New(i).mm, Old(i).mm + E.lnscale, 25000),
            C14_core |-> \A i \in Changed : New(i).kind = "TNFWC" => Near(New(i).rc, Part(9900, New(i).rs), 6)
                                            /\ Near(New(i).rs, IF Old(i).rtr < E.xcore THEN Part(9900, Old(i).rtr) ELSE E.xcore, 6 + New(i).rs \div 2000),
            C14_profile |-> \A i \in Changed : New(i).kind = "EVOLVING" => Radii(New(i)),
            C14_age |-> \A i \in DOMAIN E.new : Evaluated(i) =>
                          LET a == IF E.p.mode = "ratio" THEN Old(i).t1 + Old(i).t2 ELSE EffAge(Old(i), E.p.lam)
                          IN Near(New(i).age, a, a \div 60 + 25) /\ ((E.p.mode = "tc" /\ Tc(i) < 100) \/ Near(New(i).tau, Tau(i), Tau(i) \div 50 + 150)),
            C15_input_untouched |-> Untouched(E.old)])
          /\ Learn(E.old \o E.new)
  /\ UNCHANGED objs

GalaxyRule(o, i) == Galaxy(o, E.th, IF E.m = "GNFW" THEN "GALAXY" ELSE "SIS")
ListedRule(o, i) == Listed(o, i, RangeOf(E.idx), E.to)
TConvert ==
  /\ E.op \in {"egalaxy", "elisted"}
  /\ Consume([
       C15_converted |-> IF E.op = "egalaxy" THEN Converts(Seq2(E.old), Seq2(E.new), GalaxyRule) ELSE Converts(Seq2(E.old), Seq2(E.new), ListedRule),
       C15_same_halo |-> \A i \in Changed : SameHalo(Old(i), New(i)) /\ BoundSame(Old(i), New(i)),
       C15_mass |-> \A i \in Changed : New(i).kind \in {"TNFWC", "GALAXY"} => Near(Old(i).mr, New(i).mr, 12000),
       C15_core |-> \A i \in Changed : New(i).kind \in {"CNFW", "TNFWC"} =>
                       IF New(i).kind = "CNFW" THEN Near(New(i).rc, Part(E.xcore, New(i).rs), 6 + New(i).rc \div 2000)
                       ELSE Near(New(i).rs, IF Old(i).rtr < E.xcore THEN Part(9900, Old(i).rtr) ELSE E.xcore, 6 + New(i).rs \div 2000),
       C15_settings |-> \A i \in Changed : New(i).given,
       C15_input_untouched |-> Untouched(E.old)])
  /\ Learn(E.old \o E.new)
  /\ UNCHANGED objs
TSelect ==
  /\ E.op = "eselect"
  /\ Consume([C15_selected |-> \A i \in DOMAIN E.old :
                 LET w == ByMass(Fields(Old(i)), E.sr, E.fr, E.sp, E.fp)
                 IN (w = "in" => i \in RangeOf(E.idx)) /\ (w = "out" => i \notin RangeOf(E.idx)),
              C15_input_untouched |-> Untouched(E.old)])
  /\ Learn(E.old) /\ UNCHANGED objs
\* every object of every realization so far
TAudit == /\ E.op = "eaudit"
          /\ Consume([C15_input_untouched |-> Untouched(E.all) /\ E.orders])
          /\ Learn(E.all) /\ UNCHANGED objs

\* -- counts of independent decisions ----------------------------------------------------
TCount == /\ E.op = "ecount"
          /\ LET ok == Near(E.got, (E.n * E.k) \div E.of, Binomial6(E.n, E.k, E.of))
             IN Consume(IF E.prop = "C14" THEN [C14_probability |-> ok] ELSE [C15_probability |-> ok])
          /\ UNCHANGED <<objs, known>>

\* -- added populations: (got, mean): a count with a Poisson mean, or a sum with its spread ----
TAdded ==
  /\ E.op = "eadded"
  /\ LET all == [C15_added |-> E.ok /\ \A i \in DOMAIN E.vals : E.vals[i].lo <= E.vals[i].v /\ E.vals[i].v <= E.vals[i].hi,
                 C15_added_first |-> E.kept,
                 C15_input_untouched |-> E.untouched]
         cnt == IF E.mean < 0 THEN NoCov ELSE [C15_added_number |-> Near(E.got, E.mean, IF E.exact THEN 0 ELSE Poisson6(E.mean))]
         sums == [C15_added_moments |-> \A i \in DOMAIN E.sums : Near(E.sums[i].got, E.sums[i].want, E.sums[i].tol)]
     IN Consume(all @@ cnt @@ sums)
  /\ UNCHANGED <<objs, known>>
\* -- black holes in resolved hosts: one per host, in order ---------------------------------
TSeeds ==
  /\ E.op = "eseeds"
  /\ LET want == Seeds(E.hosts, E.ratio, E.max)
         have == SelectSeq([i \in DOMAIN want |-> [i |-> i, lm |-> want[i]]], LAMBDA w : w.lm > E.min)
         n == Len(have)
     IN Consume([
         C15_seeds |-> Len(E.seeds) >= n /\ \A j \in 1..n : /\ Near(E.seeds[j].lm, have[j].lm, 1)
                                                             /\ E.seeds[j].z = E.hosts[have[j].i].z
                                                             /\ E.seeds[j].kind = "BH" /\ ~E.seeds[j].sub,
         C15_seed_position |-> \A j \in 1..Min2(n, Len(E.seeds)) : LET h == E.hosts[have[j].i]
                              dx == E.seeds[j].x - h.x  dy == E.seeds[j].y - h.y
                              IN Abs(dx) <= h.rs + 3 /\ Abs(dy) <= h.rs + 3,
         C15_seed_range |-> \A j \in DOMAIN E.seeds : E.seeds[j].lm > E.min - 1 /\ E.seeds[j].lm <= E.max + 1,
         C15_seed_unresolved |-> \A i \in DOMAIN E.planes : Near(E.planes[i].got, E.planes[i].mean, Poisson6(E.planes[i].mean)),
         C15_input_untouched |-> E.untouched])
  /\ UNCHANGED <<objs, known>>

\* -- C27: point masses that follow the dark matter -----------------------------------------
\* per plane and image, masses in units of one point mass
TPbh ==
  /\ E.op = "epbh"
  /\ Consume([
       C27_amount |-> \A i \in DOMAIN E.planes : LET w == E.planes[i].smooth + E.planes[i].clumped
                                                  IN Near(E.planes[i].got, w, Poisson6(w) + E.planes[i].clumped \div 40 + E.planes[i].smooth \div 50),
       C27_total |-> LET w == SumSeq([i \in DOMAIN E.planes |-> E.planes[i].smooth + E.planes[i].clumped])
                     IN Near(SumSeq([i \in DOMAIN E.planes |-> E.planes[i].got]), w, Poisson6(w) + w \div 50),
       C27_places |-> E.stray = 0,
       C27_kinds |-> E.kinds /\ E.masses,
       C27_follows |-> \A i \in DOMAIN E.follow : Near(E.follow[i].got, E.follow[i].want, E.follow[i].tol),
       C27_rescaled |-> \A i \in DOMAIN E.halos : E.halos[i].f = NAN \/ Near(E.halos[i].f, IF E.rescale /\ E.halos[i].near THEN E.lnf ELSE 0, 30),
       C27_input_untouched |-> E.untouched])
  /\ UNCHANGED <<objs, known>>

TInit == /\ E.op = "enew"
         /\ Consume([C15_known |-> TRUE])
         /\ known' = [d \in {} |-> 0]
         /\ UNCHANGED objs
TDone == Finish /\ UNCHANGED <<objs, known>>
TraceInit == LibInit /\ objs = <<>> /\ known = [d \in {} |-> 0]
TraceNext == (l <= Len(Trace) /\ (TInit \/ TSidm \/ TConvert \/ TSelect \/ TAudit \/ TCount \/ TAdded \/ TSeeds \/ TPbh)) \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
