-------------------------------- MODULE Eisen --------------------------------
(* Eisenstein rationals x + y a with a = exp(j 120 deg), and the conversion between phase and sequence values.       *)
EXTENDS Num
\* numbers <<x, y>> of rationals
W0 == <<Q0, Q0>>
W1 == <<Q1, Q0>>
WA == <<Q0, Q1>>
WAA == <<QI(-1), QI(-1)>>
WAdd(u, v) == <<QAdd(u[1], v[1]), QAdd(u[2], v[2])>>
WMul(u, v) == LET p == QMul(u[2], v[2]) IN
              <<QSub(QMul(u[1], v[1]), p), QSub(QAdd(QMul(u[1], v[2]), QMul(u[2], v[1])), p)>>
WScale(q, u) == <<QMul(q, u[1]), QMul(q, u[2])>>
RECURSIVE WSum(_)
WSum(s) == IF s = <<>> THEN W0 ELSE WAdd(Head(s), WSum(Tail(s)))
WMM(A0, B0) == LET A == TLCEval(A0) D == TLCEval(B0) IN
    TLCEval([i \in 1..NR(A) |-> [j \in 1..NC(D) |-> WSum([k \in 1..NR(D) |-> WMul(A[i][k], D[k][j])])]])
F == <<<<W1, W1, W1>>, <<W1, WAA, WA>>, <<W1, WA, WAA>>>>
FInv == [i \in 1..3 |-> [j \in 1..3 |-> WScale(<<1, 3>>, <<<<W1, W1, W1>>, <<W1, WA, WAA>>, <<W1, WAA, WA>>>>[i][j])]]
Node(p) == ((p - 1) \div 3) + 1
Pos(p) == ((p - 1) % 3) + 1
Blk(M, k) == TLCEval([p \in 1..(3 * k) |-> [q \in 1..(3 * k) |-> IF Node(p) = Node(q) THEN M[Pos(p)][Pos(q)] ELSE W0]])
ToPhase(w, k, M) == IF w = "meas" THEN WMM(M, Tr(Blk(F, k))) ELSE WMM(WMM(Blk(F, k), M), Blk(FInv, k))
ToSeq(w, k, M) == IF w = "meas" THEN WMM(M, Tr(Blk(FInv, k))) ELSE WMM(WMM(Blk(FInv, k), M), Blk(F, k))

WSub(u, v) == WAdd(u, WScale(QI(-1), v))
\* squared modulus
WAbs2(u) == QAdd(QSub(QMul(u[1], u[1]), QMul(u[1], u[2])), QMul(u[2], u[2]))
=============================================================================
