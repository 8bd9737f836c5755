------------------------------ MODULE ProfileMC ------------------------------
(* The views of a halo agree with each other through any history of looking at it   *)
(* and rescaling it.                                                                  *)
EXTENDS Profile, TLC
CONSTANTS N, MaxW, MaxSteps
VARIABLES w, norm, seen, n
vars == <<w, norm, seen, n>>
S == Shells(N)
Radii == 0..(N * N)
\* counted once
Cyl == [s \in S, R \in Radii |-> InCylinder(N, s, R)]
Sph == [s \in S, R \in Radii |-> InSphere(N, s, R)]
Col == [s \in S, x \in -N..N, y \in -N..N |-> InColumn(N, s, x, y)]
M3(f, R) == Total(S, [s \in S |-> f[s] * Sph[s, R]])
M2(f, R) == Total(S, [s \in S |-> f[s] * Cyl[s, R]])
Surface(f, x, y) == Total(S, [s \in S |-> f[s] * Col[s, x, y]])
Grid == {q \in (-N..N) \X (-N..N) : TRUE}
Of(f, v, R) == CASE v = "m3" -> M3(f, R) [] v = "m2" -> M2(f, R) [] v = "surface" -> Surface(f, 0, 0) [] v = "rho" -> f[0] [] v = "slope" -> 0 [] OTHER -> 0
LookAt == {"m3", "m2", "surface", "rho"}
\* densities that do not increase outwards
Falling == {f \in [S -> 0..MaxW] : \A a, b \in S : a <= b => f[a] >= f[b]}
Init == w \in Falling /\ norm = 1 /\ seen = [v \in LookAt |-> -1] /\ n = 0
Now == [s \in S |-> norm * w[s]]
Look == /\ n < MaxSteps /\ \E v \in LookAt : seen' = [seen EXCEPT ![v] = Of(Now, v, N)]
        /\ n' = n + 1 /\ UNCHANGED <<w, norm>>
Rescale == /\ n < MaxSteps /\ \E k \in {2, 3} :
                /\ norm' = norm * k
                /\ seen' = [v \in LookAt |-> IF seen[v] = -1 THEN -1 ELSE IF NormPower(v) = 1 THEN k * seen[v] ELSE seen[v]]
           /\ n' = n + 1 /\ UNCHANGED w
Next == Look \/ Rescale
Spec == Init /\ [][Next]_vars
\* what was seen, carried along with the rescaling, is what would be seen now
Agree == \A v \in LookAt : seen[v] = -1 \/ seen[v] = Of(Now, v, N)
\* laws of the distribution itself, whatever has been done to it so far
Ordered == n = 0 => \A R \in Radii :
             /\ M2(Now, R) >= M3(Now, R)                                        \* the sphere is inside the cylinder
             /\ R > 0 => (M2(Now, R) >= M2(Now, R - 1) /\ M3(Now, R) >= M3(Now, R - 1))
Closed == n = 0 => M2(Now, N * N) = M3(Now, N * N)                                       \* everything is inside both
Columns == n = 0 => \A R \in Radii : LET P == {q \in Grid : (q[1] * q[1]) + (q[2] * q[2]) <= R} IN
             M2(Now, R) = Total(P, [q \in P |-> Surface(Now, q[1], q[2])])      \* the cylinder is its columns
Flattened == n = 0 => \A q \in Grid : \A d \in {<<1, 0>>, <<0, 1>>} :          \* a falling density is a falling surface density
               (q[1] >= 0 /\ q[2] >= 0 /\ q[1] + d[1] <= N /\ q[2] + d[2] <= N)
                 => Surface(Now, q[1], q[2]) >= Surface(Now, q[1] + d[1], q[2] + d[2])
Dimensions == AngleDim = Dim("angle") /\ KappaDim = Dim("kappa") /\ LensDim = Dim("rho")
==============================================================================
