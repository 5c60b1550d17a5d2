-------------------------------- MODULE Units --------------------------------
(* Nothing in the estimation depends on the units of the measurements: with voltages multiplied by 2^a, currents by  *)
(* 2^b and the weights of the currents by 2^c every result is multiplied by a power of two, given here as exponents. *)
(* The cases are generated in convenient units; the replay converts them, which is exact in floating point.          *)
EXTENDS Num
UnitsOf(a, b, c) == [x |-> a, z |-> b, y |-> b - a, m |-> 2 * a + c, mu |-> a + b + c, obj |-> 2 * b + c,
                     wz |-> c, wx |-> 2 * b + c - 2 * a]
\* dimensions agree: every term of the objective has its exponent
Consistent(u) == /\ u.wz + 2 * u.z = u.obj /\ u.wx + 2 * u.x = u.obj
                 /\ u.m + 2 * u.y = u.obj /\ u.mu + u.y = u.obj /\ u.x + u.y = u.z
\* drawn afresh for every case k (a definition without parameters would be evaluated once per run)
RandA(k) == RandomElement({-24, -14, -6, 0, 0, 0, 5, 16})
RandB(k) == RandomElement({-24, -16, -7, 0, 0, 0, 6, 18})
RandC(k) == RandomElement({-12, 0, 0, 0, 12, 30})
\* data and their images by the same factor (total least squares, unweighted errors in variables)
UnitsTied(k) == CHOOSE w \in {UnitsOf(a, a, 0) : a \in {RandA(k)}} : TRUE
UnitsFree(k) == UnitsOf(RandA(k), RandB(k), 0)
UnitsWeighted(k) == UnitsOf(RandA(k), RandB(k), RandC(k))
=============================================================================
