------------------------------- MODULE Layout -------------------------------
(* The layouts vec / vech / ve of square matrices and the parametrisations "full", "sym", "lap" built on them.      *)
EXTENDS Num
\* ------------------------------------------------------------------ layouts (1-based)
VecPos(i, j, m) == (j - 1) * m + i
VechPos(i, j, k) == (j - 1) * k - (((j - 1) * (j - 2)) \div 2) + (i - j + 1)            \* i >= j
VePos(i, j, k) == (j - 1) * (k - 1) - (((j - 1) * (j - 2)) \div 2) + (i - j)             \* i > j
VecCell(p, m) == <<((p - 1) % m) + 1, ((p - 1) \div m) + 1>>
NVech(k) == (k * (k + 1)) \div 2
NVe(k) == (k * (k - 1)) \div 2
VechCell(p, k) == CHOOSE c \in (1..k) \X (1..k) : c[1] >= c[2] /\ VechPos(c[1], c[2], k) = p
VeCell(p, k) == CHOOSE c \in (1..k) \X (1..k) : c[1] > c[2] /\ VePos(c[1], c[2], k) = p


\* ------------------------------------------------------------------ parametrisations of n x n matrices
NPar(st, n) == CASE st = "full" -> n * n [] st = "sym" -> NVech(n) [] st = "lap" -> NVe(n)
\* the matrix of a parameter vector (complex rationals)
MatOf(st, th0, n) == LET th == TLCEval(th0) IN
    TLCEval([i \in 1..n |-> [j \in 1..n |->
        CASE st = "full" -> th[VecPos(i, j, n)]
          [] st = "sym" -> th[VechPos(MaxOf(i, j), MinOf(i, j), n)]
          [] st = "lap" -> IF i # j THEN CNeg(th[VePos(MaxOf(i, j), MinOf(i, j), n)])
                           ELSE CSum([k \in 1..(n - 1) |-> LET o == IF k < i THEN k ELSE k + 1
                                                           IN th[VePos(MaxOf(i, o), MinOf(i, o), n)]])]])
\* its adjoint: the parameter gradient of a matrix G
AdjOf(st, G0, n) == LET G == TLCEval(G0) IN TLCEval(
    CASE st = "full" -> [p \in 1..(n * n) |-> LET c == VecCell(p, n) IN G[c[1]][c[2]]]
      [] st = "sym" -> [p \in 1..NVech(n) |-> LET c == VechCell(p, n) IN
                          IF c[1] = c[2] THEN G[c[1]][c[1]] ELSE CAdd(G[c[1]][c[2]], G[c[2]][c[1]])]
      [] st = "lap" -> [p \in 1..NVe(n) |-> LET c == VeCell(p, n) IN
                          CSub(CAdd(G[c[1]][c[1]], G[c[2]][c[2]]), CAdd(G[c[1]][c[2]], G[c[2]][c[1]]))])
=============================================================================
