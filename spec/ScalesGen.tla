------------------------------- MODULE ScalesGen -------------------------------
(* Sessions of a cosmology: how it was made, a lens and a source, and calls.       *)
EXTENDS Scales, TLC, Json
CONSTANTS MaxCalls, MaxRays
VARIABLES cosmo, lens, calls, rays, phase
vars == <<cosmo, lens, calls, rays, phase>>
Init == cosmo = <<>> /\ lens = <<>> /\ calls = <<>> /\ rays = <<>> /\ phase = "cosmo"
Make == /\ phase = "cosmo"
        /\ \E k \in {"default", "options", "astropy", "both"}, H0 \in {60, 67, 74}, om \in {250, 309, 350} : cosmo' = [made |-> k, H0 |-> H0, om |-> om]
        /\ phase' = "lens" /\ UNCHANGED <<lens, calls, rays>>
Lens == /\ phase = "lens"
        /\ \E zl, zs \in Redshifts : zl + 100 <= zs /\ zl >= 13 /\ lens' = [zl |-> zl, zs |-> zs]
        /\ phase' = "call" /\ UNCHANGED <<cosmo, calls, rays>>
Call == /\ phase = "call"
        /\ \E f \in ScalarCalls, s \in Shapes, z \in Redshifts : calls' = Append(calls, [f |-> f, shape |-> s, z |-> z])
        /\ phase' = "again" /\ UNCHANGED <<cosmo, lens, rays>>
\* the second argument, the other elements, and the same question once more
Again == /\ phase = "again"
         /\ \E w \in Redshifts, rep \in BOOLEAN :
              calls' = LET c == calls[Len(calls)]
                           d == [f |-> c.f, shape |-> c.shape, z |-> c.z, w |-> w]
                           rest == [i \in 1..(Len(calls) - 1) |-> calls[i]]
                       IN IF rep THEN rest \o <<d, [d EXCEPT !.shape = "float"]>> ELSE Append(rest, d)
         /\ phase' = IF Len(calls') >= MaxCalls THEN "ray" ELSE "call"
         /\ UNCHANGED <<cosmo, lens, rays>>
RayOf == /\ phase = "ray"
         /\ \E x, y \in {-1300, -200, 0, 451, 1700} : rays' = Append(rays, [x |-> x, y |-> y])
         /\ phase' = IF Len(rays') >= MaxRays THEN "plane" ELSE "ray"
         /\ UNCHANGED <<cosmo, lens, calls>>
Plane == /\ phase = "plane"
         /\ \E n \in 0..3, mean \in BOOLEAN, stop \in BOOLEAN, arr \in BOOLEAN : lens' = [zl |-> lens.zl, zs |-> lens.zs, planes |-> n, mean |-> mean, stop |-> stop, arr |-> arr]
         /\ phase' = "end" /\ UNCHANGED <<cosmo, calls, rays>>
Done == phase = "end" /\ phase' = "done" /\ UNCHANGED <<cosmo, lens, calls, rays>>
Next == Make \/ Lens \/ Call \/ Again \/ RayOf \/ Plane \/ Done
Spec == Init /\ [][Next]_vars
Emit == phase = "done" => PrintT(<<"BEH", ToJson([cosmo |-> cosmo, lens |-> lens, calls |-> calls, rays |-> rays])>>)
===============================================================================
