------------------------------ MODULE Fortescue ------------------------------
(* C04. Phase and sequence values over the Eisenstein rationals x + y a, a^2 + a + 1 = 0 (a = exp(j 120 deg)).      *)
(* phase = F seq with F = [1 1 1; 1 a^2 a; 1 a a^2] for every node, rows are zero, positive, negative sequence.      *)
(* The machine converts a measurement matrix or an admittance matrix back and forth at random.                      *)
EXTENDS Eisen
CONSTANTS MaxN, MaxT, MaxOps, Random, B
VARIABLES n, what, val, dom, hist, done
vars == <<n, what, val, dom, hist, done>>
RandW(k) == <<QI(RandInt(-B, B)), IF k = 1 THEN Q0 ELSE QI(RandInt(-B, B))>>      \* k = 1: real
RandM(r, c, real) == [i \in 1..r |-> [j \in 1..c |-> RandW(real)]]
UnitM(r, c, i0, j0) == [i \in 1..r |-> [j \in 1..c |-> IF i = i0 /\ j = j0 THEN W1 ELSE W0]]
Init == /\ n = 0 /\ what = "none" /\ val = <<>> /\ dom = "none" /\ hist = <<>> /\ done = FALSE
Start == /\ n = 0
         /\ IF Random THEN \E k \in {RandInt(1, MaxN)}, w \in {RandomElement({"meas", "adm"})} : \E t \in {RandInt(1, MaxT)}, real \in {RandInt(0, 2)} :
                             /\ n' = k /\ what' = w /\ \E M \in {IF w = "meas" THEN RandM(t, 3 * k, real) ELSE RandM(3 * k, 3 * k, real)} : val' = M
            ELSE \E k \in 1..MaxN : /\ n' = k
                                    /\ \/ \E j \in 1..(3 * k) : what' = "meas" /\ val' = UnitM(1, 3 * k, 1, j)
                                       \/ \E i, j \in 1..(3 * k) : what' = "adm" /\ val' = UnitM(3 * k, 3 * k, i, j)
         /\ dom' \in {"seq", "phase"} /\ UNCHANGED <<hist, done>>
Convert(to) == /\ n > 0 /\ Len(hist) < MaxOps /\ ~done
               /\ \E M \in {IF to = "phase" THEN ToPhase(what, n, val) ELSE ToSeq(what, n, val)} :
                    /\ val' = M /\ hist' = Append(hist, [to |-> to, before |-> val, after |-> M])
               /\ dom' = to /\ UNCHANGED <<n, what, done>>
Stop == Len(hist) = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<n, what, val, dom, hist>>
Spec == Init /\ [][Start \/ Convert("phase") \/ Convert("seq") \/ Stop]_vars
\* converting forth and back is the identity
InvRoundTrip == \A k \in 2..Len(hist) : hist[k].to # hist[k - 1].to => hist[k].after = hist[k - 1].before
\* balanced positive-sequence voltages
InvBalanced == LET v == <<QI(3), QI(-2)>> IN
               ToSeq("meas", 1, <<<<v, WMul(WAA, v), WMul(WA, v)>>>>) = <<<<W0, v, W0>>>>
\* symmetric decoupled network with equal positive and negative sequences: currents agree in both domains
Dec(k) == LET y(s, i, j) == IF s = 0 THEN <<QI(i * j + 1), QI(2)>> ELSE <<QI(i + j), QI(-i * j)>> IN
          [p \in 1..(3 * k) |-> [q \in 1..(3 * k) |-> IF Pos(p) = Pos(q) THEN y(IF Pos(p) = 1 THEN 0 ELSE 1, Node(p), Node(q)) ELSE W0]]
InvCurrents == what = "meas" /\ dom = "seq" /\ hist = <<>> =>
               WMM(ToPhase("meas", n, val), ToPhase("adm", n, Dec(n))) = ToPhase("meas", n, WMM(val, Dec(n)))
EmitCase == done => Emit([n |-> n, what |-> what, hist |-> hist, dec |-> Dec(n)])
=============================================================================
