-------------------------- MODULE RealizationTrace --------------------------
(* Recorded histories of realizations judged against the Realization machine.  *)
(* heap index = tag.  Observed coordinates come in 1/65536 arcsec (heap: 1/64), *)
(* masses in 1e-3 half-units, redshifts in 1e-6.                               *)
EXTENDS Realization, TraceLib

E == Trace[l]
tvars == <<l, bad, cov, heap, moved, reals, live>>

\* -- what the recorder saw of a realization `o` against the machine's view ------
Known(o) == \A i \in DOMAIN o.tags : o.tags[i] \in DOMAIN heap
ObsSet(o) == SetOf(o.tags)
NoDup(o) == Cardinality(ObsSet(o)) = Len(o.tags)
HaloAsIs(hp, o, i) == LET h == hp[o.tags[i]] IN
    /\ o.x[i] = 1024 * h.x /\ o.y[i] = 1024 * h.y
    /\ o.m[i] = 1000 * h.m
    /\ o.z[i] = 1000 * h.z
    /\ o.sub[i] = h.sub
Unmodified(hp, o) == Known(o) /\ \A i \in DOMAIN o.tags : HaloAsIs(hp, o, i)
CtxIs(o, c) == /\ o.ctx.rcs = c.rcs /\ o.ctx.geom = c.geom /\ o.ctx.lc = c.lc
               /\ o.ctx.sheets = c.sheets
CenterIs(o, c) == \A z \in DOMAIN c.center : o.ctx.center[z].x = 1024 * c.center[z].x
                                               /\ o.ctx.center[z].y = 1024 * c.center[z].y
ZSet(o) == SetOf(o.z)
ArraysOf(o) == LET a == o.arr IN
    /\ a.m = o.m /\ a.x = o.x /\ a.y = o.y /\ a.z = o.z /\ a.sub = o.sub /\ a.kinds = o.kinds
    /\ SetOf(a.uz) = ZSet(o) /\ Cardinality(ZSet(o)) = Len(a.uz)
    /\ \A i \in 1..(Len(a.uz) - 1) : a.uz[i] < a.uz[i + 1]
    /\ \A i \in DOMAIN o.tags : a.r3d[i] = o.r3d[i]
Partition(o) == LET s(t) == heap[t].sub  f(t) == ~heap[t].sub IN
    Known(o) => /\ o.subtags = SelectSeq(o.tags, s)
                /\ o.fieldtags = SelectSeq(o.tags, f)

RealOf(o, c, sh) == [hs |-> o.tags, shifted |-> sh, center |-> c.center, rcs |-> c.rcs,
                     geom |-> c.geom, lc |-> c.lc, sheets |-> c.sheets]
Src == reals[E.src]
SrcIntact == E.srcobs.tags = Src.hs /\ Unmodified(heap, E.srcobs)

\* verdict of a selection: in / out / edge for each halo of the source
Selected(o, src, V(_)) ==
    /\ \A t \in ObsSet(o) : t \in SetOf(reals[src].hs) /\ V(t) # "out"
    /\ \A t \in SetOf(reals[src].hs) : V(t) = "in" => t \in ObsSet(o)
Bool(b) == IF b THEN "in" ELSE "out"

Common(o, c) == [
    C06_arrays |-> ArraysOf(o),
    C06_partition |-> Partition(o)]

Selection(o, V(_), c) == [
    C01_exact |-> Known(o) /\ Selected(o, E.src, V),
    C01_noduplicates |-> NoDup(o),
    C01_unmodified |-> Unmodified(heap, o),
    C01_context |-> CtxIs(o, c) /\ CenterIs(o, c),
    C01_source_intact |-> SrcIntact] @@ Common(o, c)

Install(os) ==   \* os: sequence of observed realizations derived from E.src
    /\ reals' = reals \o os
    /\ live' = live \cup (Len(reals) + 1)..(Len(reals) + Len(os))
    /\ UNCHANGED <<heap, moved>>
Good(o) == SelectSeq(o.tags, LAMBDA t : t \in DOMAIN heap)
Made(o, c) == [RealOf(o, c, Src.shifted) EXCEPT !.hs = Good(o)]

TNew == /\ E.op = "new"
        /\ heap' = heap \o E.halos
        /\ moved' = moved \o [i \in DOMAIN E.halos |-> 0]
        /\ reals' = Append(reals, RealOf(E.obs, E.ctx, E.shifted))
        /\ live' = live \cup {Len(reals) + 1}
        /\ Consume([C06_arrays |-> ArraysOf(E.obs),
                    C06_new |-> /\ Len(E.obs.tags) = Len(E.want)
                                /\ SetOf(E.obs.tags) = SetOf(E.want)
                                /\ \A i \in DOMAIN E.obs.tags : HaloAsIs(heap', E.obs, i)
                                /\ CtxIs(E.obs, E.ctx)])

TFilter == /\ E.op = "filter"
           /\ LET V(t) == FilterVerdict(heap[t], E.thr, E.r, E.rays, E.units, E.chi, E.chis, E.gw, E.wmin)
              IN Consume(Selection(E.obs, V, Src))
           /\ Install(<<Made(E.obs, Src)>>)
TFilterSub == /\ E.op = "filter_subhalos"
              /\ LET V(t) == Bool(SubhaloFilterKeeps(heap[t], E.r, E.thr, E.pts))
                 IN Consume(Selection(E.obs, V, Src))
              /\ Install(<<Made(E.obs, Src)>>)
BoundVerdict(h, thr) == IF h.sub /\ ~h.bmexact /\ Near(h.bm, thr, 1) THEN "edge" ELSE Bool(BoundMassKeeps(h, thr))
TFilterBound == /\ E.op = "filter_bound_mass"
                /\ LET V(t) == BoundVerdict(heap[t], E.thr) IN Consume(Selection(E.obs, V, Src))
                /\ Install(<<Made(E.obs, Src)>>)
TSplit == /\ E.op = "split_at_z"
          /\ LET lo(t) == Bool(heap[t].z <= E.z)
                 hi(t) == Bool(heap[t].z > E.z)
                 b == Selection(E.obs2, hi, Src)
             IN Consume([c \in DOMAIN b |-> b[c] /\ Selection(E.obs, lo, Src)[c]])
          /\ Install(<<Made(E.obs, Src), Made(E.obs2, Src)>>)
TAtZ == /\ E.op = "realization_at_z"
        /\ LET V(t) == Bool(AtRedshiftKeeps(heap[t], E.z, E.ranged, E.r, E.p))
               c == [Src EXCEPT !.sheets = E.sheets]
           IN /\ Consume(Selection(E.obs, V, c) @@
                   [C01_indexes |-> Len(E.indexes) = Len(E.obs.tags)
                      /\ \A i \in DOMAIN E.indexes : E.indexes[i] + 1 \in DOMAIN Src.hs
                                                     /\ Src.hs[E.indexes[i] + 1] = E.obs.tags[i]])
              /\ Install(<<Made(E.obs, c)>>)
TJoin == /\ E.op = "join"
         /\ LET c == [Src EXCEPT !.rcs = IF E.classes THEN @ \o reals[E.other].rcs ELSE @]
                o == E.obs
            IN /\ Consume([
                    C02_union |-> ObsSet(o) = TagsOf(JoinOf(E.src, E.other)),
                    C02_once |-> NoDup(o),
                    C02_unmodified |-> Unmodified(heap, o),
                    C02_context |-> CtxIs(o, c) /\ CenterIs(o, c),
                    C02_operands_intact |-> SrcIntact /\ E.otherobs.tags = reals[E.other].hs] @@ Common(o, c))
               /\ Install(<<Made(o, c)>>)
TShift == /\ E.op = "shift"
          /\ IF Src.shifted
             THEN /\ Consume([C03_once |-> E.obs.tags = Src.hs /\ Unmodified(heap, E.obs),
                              C03_center |-> CenterIs(E.obs, Src),
                              C03_context |-> CtxIs(E.obs, Src)])
                  /\ Install(<<Made(E.obs, Src)>>)
             ELSE LET kept(t) == heap[t].fixed \/ heap[t].z >= E.zmin
                      hs == Sel(Src.hs, kept)
                      mv == {t \in SetOf(hs) : ~heap[t].fixed}
                      hp == [t \in DOMAIN heap |-> IF t \in mv
                                THEN [heap[t] EXCEPT !.x = @ + E.ray[ToString(heap[t].z)].x,
                                                     !.y = @ + E.ray[ToString(heap[t].z)].y]
                                ELSE heap[t]]
                      c == [Src EXCEPT !.center = E.ray]
                      o == E.obs
                  IN /\ Consume([
                          C03_kept |-> Known(o) /\ ObsSet(o) = SetOf(hs) /\ NoDup(o),
                          C03_moved |-> Known(o) /\ \A i \in DOMAIN o.tags :
                                            ~heap[o.tags[i]].fixed => HaloAsIs(hp, o, i),
                          C03_fixed |-> Known(o) /\ \A i \in DOMAIN o.tags :
                                            heap[o.tags[i]].fixed => HaloAsIs(hp, o, i),
                          C03_center |-> CenterIs(o, c),
                          C03_context |-> CtxIs(o, c)] @@ Common(o, c))
                     /\ heap' = hp
                     /\ moved' = [t \in DOMAIN moved |-> IF t \in mv THEN moved[t] + 1 ELSE moved[t]]
                     /\ reals' = Append(reals, [RealOf(o, c, TRUE) EXCEPT !.hs = Good(o)])
                     /\ live' = {r \in live : SetOf(reals[r].hs) \cap mv = {}} \cup {Len(reals) + 1}

\* -- observations ---------------------------------------------------------------
\* centres are rounded to 1e-4 arcsec in the lens models: heap 1/64 -> 1e-4 is 156.25
CentreNear(v, x) == Abs(4 * v - 625 * x) <= 5
Expand(hs, F(_)) == Flatten([i \in DOMAIN hs |-> F(hs[i])])
TLens == /\ E.op = "lens"
         /\ LET R == reals[E.src]
                want == Expand(R.hs, LAMBDA t : NamesOf(heap[t].kind))
                own == Expand(R.hs, LAMBDA t : [k \in 1..Len(NamesOf(heap[t].kind)) |-> t])
                sheetsOn == R.sheets /\ E.addsheets
                sheets == IF sheetsOn THEN E.sheets ELSE <<>>
                n == Len(want)
                N == n + Len(sheets)
                aligned == Len(E.names) = N /\ Len(E.zs) = N /\ Len(E.cx) = N /\ Len(E.fp) = N
                cl == [
                 C04_aligned |-> Len(E.names) = Len(E.zs) /\ Len(E.names) = Len(E.cx),
                 C04_complete |-> aligned,
                 C04_names |-> aligned => \A k \in 1..n : E.names[k] = want[k],
                 C04_redshifts |-> aligned => \A k \in 1..n : E.zs[k] = 1000 * heap[own[k]].z,
                 C04_centres |-> aligned => \A k \in 1..n :
                        heap[own[k]].kind = "GAUSSIAN_KAPPA" \/
                        (CentreNear(E.cx[k], heap[own[k]].x) /\ CentreNear(E.cy[k], heap[own[k]].y)),
                 C04_own_parameters |-> aligned => \A k \in 1..n : E.fp[k] = E.hfp[k],
                 C04_sheets |-> aligned => \A k \in DOMAIN sheets :
                        /\ E.names[n + k] = "CONVERGENCE"
                        /\ E.zs[n + k] = 1000 * sheets[k].z
                        /\ E.kappa[k] = sheets[k].kappa,
                 C04_sheet_centres |-> aligned => \A k \in DOMAIN sheets :
                        /\ E.ra[k] = 1024 * R.center[ToString(sheets[k].z)].x
                        /\ E.dec[k] = 1024 * R.center[ToString(sheets[k].z)].y]
            IN Consume(cl @@ [C03_lenses_follow |-> R.shifted => (cl.C04_centres /\ cl.C04_sheet_centres)])
         /\ UNCHANGED vars

TCount == /\ E.op = "count"
          /\ LET R == reals[E.src]
                 S == SetOf(R.hs)
                 zz(t) == 10 * heap[t].z              \* E.z is in 1/10000
                 atz == {t \in S : zz(t) = E.z}
                 mass(t) == IF 10 * E.zlens = E.z /\ heap[t].sub THEN heap[t].bmc ELSE 100 * heap[t].m
             IN Consume([
                 C06_before |-> E.before = Cardinality({t \in S : zz(t) < E.z}),
                 C06_after |-> E.after = Cardinality({t \in S : zz(t) > E.z}),
                 C06_at |-> E.at = Cardinality(atz),
                 C06_listed |-> {E.listed[i] : i \in DOMAIN E.listed} = atz /\ Len(E.listed) = Cardinality(atz)
                                /\ \A i \in DOMAIN E.listed : E.index[i] + 1 \in DOMAIN R.hs
                                                              /\ R.hs[E.index[i] + 1] = E.listed[i],
                 \* a truncated subhalo's bound mass is computed, to 5e-5, from its lens model
                 C06_mass |-> Near(E.mass, SumSeq([i \in DOMAIN R.hs |-> IF R.hs[i] \in atz THEN mass(R.hs[i]) ELSE 0]),
                                   3 + Cardinality(atz) + SumSeq([i \in DOMAIN R.hs |->
                                      IF R.hs[i] \in atz /\ ~heap[R.hs[i]].bmexact THEN mass(R.hs[i]) \div 20000 ELSE 0])),
                 C06_comoving |-> Len(E.comx) = Len(R.hs) /\ \A i \in DOMAIN R.hs : LET h == heap[R.hs[i]]
                                      c == E.chi10[ToString(h.z)]
                                      tol(v) == ((Abs(v) * c) \div 1000) + Abs(v) + 2
                                  IN Near(E.comx[i], h.x * c, tol(h.x)) /\ Near(E.comy[i], h.y * c, tol(h.y))
                                     /\ E.comz[i] = 1000 * h.z])
          /\ UNCHANGED vars
TEq == /\ E.op = "eq"
       /\ Consume([C02_equality |-> E.res = (TagsOf(reals[E.src].hs) = TagsOf(reals[E.other].hs))])
       /\ UNCHANGED vars
\* an operation the specification refuses, or one that failed although it should not
TRaise == /\ E.op = "raise"
          /\ Consume([c \in {E.clause} |-> E.outcome = E.want])
          /\ UNCHANGED vars

\* histories are independent of each other
TReset == /\ E.op = "reset"
          /\ Consume(NoCov)
          /\ heap' = <<>> /\ moved' = <<>> /\ reals' = <<>> /\ live' = {}

TraceInit == LibInit /\ heap = <<>> /\ moved = <<>> /\ reals = <<>> /\ live = {}
TraceNext == \/ (l <= Len(Trace) /\ (TNew \/ TFilter \/ TFilterSub \/ TFilterBound \/ TSplit \/ TAtZ
                                      \/ TJoin \/ TShift \/ TLens \/ TCount \/ TEq \/ TRaise \/ TReset))
             \/ (Finish /\ UNCHANGED vars)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
