------------------------------- MODULE Num -------------------------------
(* Exact arithmetic for the specification: rationals <<n, d>> (reduced, d > 0), complex rationals <<re, im>>,       *)
(* Gaussian integers <<a, b>>, and matrices as sequences of rows.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SetToSortedSeq(_)
SetToSortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                                              IN <<m>> \o SetToSortedSeq(S \ {m})
RECURSIVE FlattenSeq(_)
FlattenSeq(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o FlattenSeq(Tail(s))

----------------------------------------------------------------------------
\* rationals
Q(n, d) == LET g == Gcd(Abs(n), Abs(d)) s == Sgn(d)
           IN IF g = 0 THEN <<0, 0>> ELSE <<s * (n \div g), s * (d \div g)>>
QI(n) == <<n, 1>>
Q0 == <<0, 1>>
Q1 == <<1, 1>>
QMul(a, b) == LET g == MaxOf(1, Gcd(Abs(a[1]), b[2])) h == MaxOf(1, Gcd(Abs(b[1]), a[2]))
              IN <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
QInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>     \* a # 0
QDiv(a, b) == QMul(a, QInv(b))
QAdd(a, b) == IF a[2] = b[2] THEN Q(a[1] + b[1], a[2])
              ELSE LET g == Gcd(a[2], b[2]) IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
QNeg(a) == <<-a[1], a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
QAbs(a) == <<Abs(a[1]), a[2]>>
QLt(a, b) == QSub(a, b)[1] < 0
QLe(a, b) == QSub(a, b)[1] <= 0
RECURSIVE QSum(_)
QSum(s) == IF s = <<>> THEN Q0 ELSE QAdd(Head(s), QSum(Tail(s)))
QSq(a) == QMul(a, a)

----------------------------------------------------------------------------
\* complex rationals
C(re, im) == <<re, im>>
CI(a, b) == <<QI(a), QI(b)>>
C0 == <<Q0, Q0>>
C1 == <<Q1, Q0>>
CAdd(x, y) == <<QAdd(x[1], y[1]), QAdd(x[2], y[2])>>
CNeg(x) == <<QNeg(x[1]), QNeg(x[2])>>
CSub(x, y) == CAdd(x, CNeg(y))
CMul(x, y) == <<QSub(QMul(x[1], y[1]), QMul(x[2], y[2])), QAdd(QMul(x[1], y[2]), QMul(x[2], y[1]))>>
CConj(x) == <<x[1], QNeg(x[2])>>
CAbs2(x) == QAdd(QSq(x[1]), QSq(x[2]))
CScale(q, x) == <<QMul(q, x[1]), QMul(q, x[2])>>
CInv(x) == CScale(QInv(CAbs2(x)), CConj(x))
CDiv(x, y) == CMul(x, CInv(y))
RECURSIVE CSum(_)
CSum(s) == IF s = <<>> THEN C0 ELSE CAdd(Head(s), CSum(Tail(s)))

----------------------------------------------------------------------------
\* Gaussian integers <<a, b>>
GAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
GNeg(x) == <<-x[1], -x[2]>>
GSub(x, y) == GAdd(x, GNeg(y))
GMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
GConj(x) == <<x[1], -x[2]>>
RECURSIVE GSum(_)
GSum(s) == IF s = <<>> THEN <<0, 0>> ELSE GAdd(Head(s), GSum(Tail(s)))
G2C(x) == CI(x[1], x[2])

----------------------------------------------------------------------------
\* matrices: sequences of rows
Mat(m, n, f(_, _)) == [i \in 1..m |-> [j \in 1..n |-> f(i, j)]]
NR(A) == Len(A)
NC(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
Tr(A0) == LET A == TLCEval(A0) IN TLCEval([j \in 1..NC(A) |-> [i \in 1..NR(A) |-> A[i][j]]])
GMM(A0, B0) == LET A == TLCEval(A0) B == TLCEval(B0) IN TLCEval([i \in 1..NR(A) |-> [j \in 1..NC(B) |-> GSum([k \in 1..NR(B) |-> GMul(A[i][k], B[k][j])])]])
IMM(A0, B0) == LET A == TLCEval(A0) B == TLCEval(B0) IN TLCEval([i \in 1..NR(A) |-> [j \in 1..NC(B) |-> SumSeq([k \in 1..NR(B) |-> A[i][k] * B[k][j]])]])
CMM(A0, B0) == LET A == TLCEval(A0) B == TLCEval(B0) IN TLCEval([i \in 1..NR(A) |-> [j \in 1..NC(B) |-> CSum([k \in 1..NR(B) |-> CMul(A[i][k], B[k][j])])]])
QMM(A0, B0) == LET A == TLCEval(A0) B == TLCEval(B0) IN TLCEval([i \in 1..NR(A) |-> [j \in 1..NC(B) |-> QSum([k \in 1..NR(B) |-> QMul(A[i][k], B[k][j])])]])
CMap2(A0, B0, op(_, _)) == LET A == TLCEval(A0) B == TLCEval(B0) IN TLCEval([i \in 1..NR(A) |-> [j \in 1..NC(A) |-> op(A[i][j], B[i][j])]])
CMadd(A, B) == CMap2(A, B, CAdd)
CMsub(A, B) == CMap2(A, B, CSub)
CHerm(A0) == LET A == TLCEval(A0) IN TLCEval([j \in 1..NC(A) |-> [i \in 1..NR(A) |-> CConj(A[i][j])]])
CEye(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN C1 ELSE C0]]
ToC(A0) == LET A == TLCEval(A0) IN TLCEval([i \in 1..NR(A) |-> [j \in 1..NC(A) |-> G2C(A[i][j])]])

\* Gauss-Jordan elimination over the complex rationals: the solution of A X = B, <<>> if A is singular
RECURSIVE CElim(_, _, _)
CElim(A, B, k) ==
    LET n == NR(A) IN
    IF k > n THEN B
    ELSE LET piv == {i \in k..n : A[i][k] # C0} IN
         IF piv = {} THEN <<>>
         ELSE LET p == CHOOSE i \in piv : \A j \in piv : i <= j
                  sw(M) == [i \in 1..n |-> IF i = k THEN M[p] ELSE IF i = p THEN M[k] ELSE M[i]]
                  A1 == sw(A)
                  B1 == sw(B)
                  d == CInv(A1[k][k])
                  rowA == [j \in 1..NC(A) |-> CMul(d, A1[k][j])]
                  rowB == [j \in 1..NC(B) |-> CMul(d, B1[k][j])]
                  A2 == [i \in 1..n |-> IF i = k THEN rowA
                                        ELSE [j \in 1..NC(A) |-> CSub(A1[i][j], CMul(A1[i][k], rowA[j]))]]
                  B2 == [i \in 1..n |-> IF i = k THEN rowB
                                        ELSE [j \in 1..NC(B) |-> CSub(B1[i][j], CMul(A1[i][k], rowB[j]))]]
              IN CElim(TLCEval(A2), TLCEval(B2), k + 1)
CSolve(A, B) == CElim(TLCEval(A), TLCEval(B), 1)

\* the same over the rationals
RECURSIVE QElim(_, _, _)
QElim(A, B, k) ==
    LET n == NR(A) IN
    IF k > n THEN B
    ELSE LET piv == {i \in k..n : A[i][k] # Q0} IN
         IF piv = {} THEN <<>>
         ELSE LET p == CHOOSE i \in piv : \A j \in piv : i <= j
                  sw(M) == [i \in 1..n |-> IF i = k THEN M[p] ELSE IF i = p THEN M[k] ELSE M[i]]
                  A1 == sw(A)
                  B1 == sw(B)
                  d == QInv(A1[k][k])
                  rowA == [j \in 1..NC(A) |-> QMul(d, A1[k][j])]
                  rowB == [j \in 1..NC(B) |-> QMul(d, B1[k][j])]
                  A2 == [i \in 1..n |-> IF i = k THEN rowA
                                        ELSE [j \in 1..NC(A) |-> QSub(A1[i][j], QMul(A1[i][k], rowA[j]))]]
                  B2 == [i \in 1..n |-> IF i = k THEN rowB
                                        ELSE [j \in 1..NC(B) |-> QSub(B1[i][j], QMul(A1[i][k], rowB[j]))]]
              IN QElim(TLCEval(A2), TLCEval(B2), k + 1)
QSolve(A, B) == QElim(TLCEval(A), TLCEval(B), 1)

\* random values (TLC's -seed)
RandInt(a, b) == RandomElement(a..b)
RandNZ(b) == RandomElement((-b..b) \ {0})
=============================================================================
