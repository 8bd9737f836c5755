--------------------------- MODULE PopulationTrace ---------------------------
(* Recorded lens planes, geometries, populations and sheets of the real code.   *)
EXTENDS Population, TraceLib

E == Trace[l]

\* -- C10 ------------------------------------------------------------------------
TPlanes == /\ E.op = "planes"
           /\ LET p == Planes(E.start, E.zl, E.zs, E.step)
                  d == Thickness(p, E.zs)
                  same == Len(p) = Len(E.z) /\ Len(d) = Len(E.dz)
              IN Consume([
                C10_grid |-> Len(p) = Len(E.z) /\ \A i \in DOMAIN p : Near(p[i], E.z[i], 1),
                C10_increasing |-> \A i \in 1..(Len(E.z) - 1) : E.z[i] < E.z[i + 1],
                C10_deflector |-> E.zl > 0 => Cardinality({i \in DOMAIN E.z : E.exact[i]}) = 1,
                C10_before_source |-> \A i \in DOMAIN E.z : E.z[i] < E.zs,
                C10_tile |-> same /\ \A i \in DOMAIN d : Near(d[i], E.dz[i], 1)
                             /\ Near(SumSeq(E.dz), E.zs - E.z[1], Len(E.dz))])

\* -- C12 ------------------------------------------------------------------------
TScale == /\ E.op = "scale"
          /\ LET want == RenderingScale(E.type, E.zl, E.z, E.pad, E.D)
             IN Consume([C12_scale |-> Near(E.obs, want, 15 + want \div 500),
                         C12_radius |-> NearL(E.comr, E.lr + E.lscale + E.ldc, 2000 + 200000 \div (want + 1)) /\ NearL(E.phr, E.comr - E.lz1, 2000),
                         C12_area |-> NearL(E.com, LnPi + 2 * E.comr, 50) /\ NearL(E.phys, E.com - 2 * E.lz1, 50)])
TSlice == /\ E.op = "slice"
          /\ Consume([C12_slice |-> NearL(E.obs, E.want, 3000),
                      C12_thin |-> NearL(E.thin, SliceVolume(E.lcone, E.lscale, E.ldc, E.ldepth), 4000),
                      C12_split |-> NearL(E.obs, E.parts, 1500)])
TVolume == /\ E.op = "volume"
           /\ Consume([C12_total |-> NearL(E.obs, TotalVolume(E.type, E.lcone, E.ldl, E.lds), 6000)])

\* -- C05 ------------------------------------------------------------------------
TSheets == /\ E.op = "sheets"
           /\ LET want == IF E.exact THEN ExactSheets(E.rendered) ELSE Sheets(E.classes, E.a)
              IN Consume([
                C05_negative |-> \A i \in DOMAIN E.obs : E.obs[i].neg,
                C05_amount |-> SameSheets(want, E.obs, E.tol),
                C05_aligned |-> E.lens = Len(E.obs),
                C05_centre |-> \A i \in DOMAIN E.obs : E.obs[i].cx = 0 /\ E.obs[i].cy = 0])

\* -- C09 ------------------------------------------------------------------------
TPopulation ==
    /\ E.op = "population"
    /\ LET n == Len(E.pl)
           onplane(i) == E.planes[E.pl[i]]
           bounds(i) == IF E.sub[i] THEN E.subclass ELSE onplane(i)
       IN Consume([
            C09_aligned |-> Len(E.lm) = n /\ Len(E.r) = n /\ Len(E.sub) = n /\ Len(E.mdef) = n,
            C09_planes |-> \A i \in 1..n : E.pl[i] > 0,
            C09_definition |-> \A i \in 1..n : E.mdef[i] = (IF E.sub[i] THEN E.mdef_sub ELSE E.mdef_field),
            C09_subhalos |-> \A i \in 1..n : E.sub[i] => E.pl[i] > 0 /\ onplane(i).z = E.zl /\ E.hassub,
            C09_masses |-> \A i \in 1..n : E.pl[i] > 0 =>
                              bounds(i).lo - 5 <= E.lm[i] /\ E.lm[i] <= bounds(i).hi + 5,
            C09_inside |-> \A i \in 1..n : E.pl[i] > 0 => E.r[i] <= bounds(i).r + 3 + (bounds(i).r \div 500),
            C09_depth |-> \A i \in 1..n : IF E.sub[i] /\ E.nfw THEN E.r3d[i] # NAN /\ E.r3d[i] <= E.r3dmax
                                           ELSE E.r3d[i] = NAN])
\* counts over E.n realizations; want in 1/1000 halos per realization
Deterministic(o, w, k, n) == Abs(1000 * o - n * w) <= n * (500 * k + 10 + w \div 300)
Random(o, w, n) == Abs(o - (n * w) \div 1000) <= Poisson6((n * w) \div 1000) + (n * w) \div 300000
TCounts == /\ E.op = "counts"
           /\ Consume([
                C09_counts |-> \A i \in DOMAIN E.want :
                    IF E.fixed THEN Deterministic(E.obs[i], E.want[i], E.parts[i], E.n)
                    ELSE Random(E.obs[i], E.want[i], E.n),
                C09_total |-> IF E.fixed THEN TRUE ELSE Random(SumSeq(E.obs), SumSeq(E.want), E.n),
                C09_subcount |-> IF E.subfixed THEN Deterministic(E.subobs, E.subwant, 1, E.n)
                                 ELSE Random(E.subobs, E.subwant, E.n),
                \* repeated Poisson draws scatter like Poisson draws (var/mean in 1/100)
                C09_scatter |-> (E.varn > 25 /\ ~E.fixed) => (20 <= E.fano /\ E.fano <= 300),
                C09_noscatter |-> (E.fixed) => E.fano = 0])

\* -- C11 ------------------------------------------------------------------------
TMass == /\ E.op = "massfunction"
         /\ LET N == SumSeq(E.hist) + E.outside
                mean == E.want              \* expected number over all draws together
            IN Consume([
              C11_number |-> NearL(E.on, Times(E.lnorm, E.lin), E.tol),
              C11_mass |-> NearL(E.om, Times(E.lnorm, E.lim), E.tol),
              C11_evaluate |-> \A i \in DOMAIN E.ev : NearL(E.ev[i], E.lnorm + E.evwant[i], E.tol + 2000),
              C11_range |-> E.outside = 0,
              C11_drawn |-> IF E.fixed THEN Abs(1000 * N - E.ndraw * E.want1000) <= E.ndraw * (510 + E.want1000 \div 300)
                            ELSE Abs(N - mean) <= Poisson6(mean),
              C11_distribution |-> \A i \in DOMAIN E.hist : Abs(E.hist[i] - E.expect[i]) <= Poisson6(E.expect[i])])
\* -- C13 ------------------------------------------------------------------------
QuantileGood(r, q, k, parts) ==
    Abs(Cardinality({i \in DOMAIN r : r[i] <= q}) - (Len(r) * k) \div parts) <= Binomial6(Len(r), k, parts)
TSpatial == /\ E.op = "spatial"
            /\ LET n == Len(E.r)
                   \* uniform: the disk of radius q holds k/8 of the area of the whole
                   q(k) == IF E.uniform THEN Root((E.rmax * (E.rmax \div 8)) * k) ELSE E.q[k]
               IN Consume([
                 C13_number |-> n = E.n /\ Len(E.quad) = E.n /\ Len(E.r3d) = (IF E.has3d THEN E.n ELSE 0),
                 C13_inside |-> \A i \in 1..n : E.r[i] <= E.rmax + 1 + E.rmax \div 1000,
                 C13_radii |-> n > 100 => \A k \in 1..7 : QuantileGood(E.r, q(k), k, 8),
                 C13_isotropic |-> n > 100 => \A a \in 1..4 :
                       Abs(Cardinality({i \in 1..n : E.quad[i] = a}) - n \div 4) <= Binomial6(n, 1, 4),
                 C13_depth |-> E.has3d => /\ \A i \in DOMAIN E.r3d : E.r3d[i] <= E.r3dmax + 1 + E.r3dmax \div 1000
                                          /\ n > 100 => \A k \in 1..7 : QuantileGood(E.r3d, E.q3[k], k, 8)])
TPixels == /\ E.op = "pixels"
           /\ LET n == SumSeq(E.counts)
              IN Consume([C13_map |-> n = E.n /\ \A i \in DOMAIN E.counts :
                             IF E.weight[i] = 0 THEN E.counts[i] = 0
                             ELSE Abs(E.counts[i] - (n * E.weight[i]) \div E.total)
                                     <= Binomial6(n, E.weight[i], E.total)])
TRaise == /\ E.op = "raise"
          /\ Consume([c \in {E.clause} |-> E.outcome = E.want])

TraceInit == LibInit
TraceNext == \/ (l <= Len(Trace) /\ (TPlanes \/ TScale \/ TSlice \/ TVolume \/ TSheets \/ TPopulation \/ TCounts
                                      \/ TMass \/ TSpatial \/ TPixels \/ TRaise))
             \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad, cov>>
=============================================================================
