---------------------------- MODULE BuiltPriors ----------------------------
(* C06. The priors built from a preliminary estimate or from exact knowledge, as stacks of beliefs                   *)
(*      coef . parameters = mu  (order of the stack and the sign of a belief do not matter), where the parameters    *)
(* are the real parts of the reduced admittances followed by their imaginary parts.                                  *)
EXTENDS Layout
CONSTANTS Kind, MinN, MaxN, B
VARIABLES c, done
vars == <<c, done>>
\* a random value, drawn anew each time (TLC keeps the value of constant expressions)
Draw(e) == TLCEval(IF done THEN e ELSE e)
RandG(z) == <<RandNZ(B), RandNZ(B)>>
Lambdas == {<<200, 1>>, <<20, 1>>, <<1, 2>>, <<3, 1>>}
\* the reduced parameter of a (not necessarily symmetric) matrix: average of the two entries, negated if laplacian
Red(y, st, i, j) == CScale(IF st = "lap" THEN <<-1, 2>> ELSE <<1, 2>>, CAdd(G2C(y[i][j]), G2C(y[j][i])))
Pos(st, i, j, n) == LET a == MaxOf(i, j) b == MinOf(i, j) IN IF st = "lap" THEN VePos(a, b, n) ELSE VechPos(a, b, n)
Cells(st, n) == {<<i, j>> \in (1..n) \X (1..n) : i > j \/ (st = "sym" /\ i = j)}
OffCells(n) == {<<i, j>> \in (1..n) \X (1..n) : i > j}
\* part 0: real, part 1: imaginary; 0-based index of the parameter
Idx(st, i, j, n, part) == Pos(st, i, j, n) - 1 + part * NPar(st, n)
One(i, w, mu) == [coef |-> <<<<i, w>>>>, mu |-> mu, node |-> 0]     \* node: the node a belief about a sum is about
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Parts == {0, 1}

\* ------------------------------------------------------------------ the beliefs
Sparse(y, st, n, cells) == {LET v == Red(y, st, cl[1][1], cl[1][2])[cl[2] + 1] IN
                            One(Idx(st, cl[1][1], cl[1][2], n, cl[2]), QInv(QAbs(v)), Q0) : cl \in cells \X Parts}
RowSum(y, st, n, i, part) == QSum([k \in 1..(n - 1) |-> LET j == IF k < i THEN k ELSE k + 1 IN Red(y, st, i, j)[part + 1]])
\* what the line admittances at node i sum up to: by the estimated lines, or by the estimated diagonal entry
Implied(y, st, n, i, part, usediag) ==
    IF ~usediag THEN RowSum(y, st, n, i, part)
    ELSE IF st = "lap" THEN QI(y[i][i][part + 1]) ELSE QI(-y[i][i][part + 1])
Contrast(y, st, n, lp, usediag) ==
    {LET i == ip[1] part == ip[2] w == QDiv(lp, Implied(y, st, n, i, part, usediag)) IN
     [coef |-> SeqOf({<<Idx(st, i, j, n, part), w>> : j \in (1..n) \ {i}}), mu |-> lp, node |-> i] : ip \in (1..n) \X Parts}
Diag(y, st, n, lp) == IF st = "lap" THEN {} ELSE
    {One(Idx(st, ip[1], ip[1], n, ip[2]), lp, QMul(lp, QI(y[ip[1]][ip[1]][ip[2] + 1]))) : ip \in (1..n) \X Parts}
Exact(y, st, n, lp, cells, f) ==
    {LET v == QMul(f, Red(y, st, cl[1][1], cl[1][2])[cl[2] + 1]) IN
     One(Idx(st, cl[1][1], cl[1][2], n, cl[2]), lp, QMul(lp, v)) : cl \in cells \X Parts}
\* known nodes (0-based) of the documented sets
KnownNodes(best) == IF best THEN {0, 25, 26} ELSE {7, 20, 21}
KnownLines(best) == IF best THEN {<<1, 0>>, <<25, 24>>, <<26, 25>>, <<27, 26>>, <<28, 26>>}
                    ELSE {<<7, 6>>, <<8, 7>>, <<20, 19>>, <<21, 20>>, <<22, 21>>}
KnownCells(best, n) == {cl \in OffCells(n) : cl[1] - 1 \in KnownNodes(best) \/ cl[2] - 1 \in KnownNodes(best)}

\* ------------------------------------------------------------------ cases
Mtx(n, S, y) == [i \in 1..n |-> [j \in 1..n |-> IF <<i, j>> \in S THEN y[i][j] ELSE <<0, 0>>]]
RandMat(n, z) == [i \in 1..n |-> [j \in 1..n |-> RandG(0)]]
Good(y, st, n, usediag) ==
    /\ \A cl \in Cells(st, n) : Red(y, st, cl[1], cl[2])[1] # Q0 /\ Red(y, st, cl[1], cl[2])[2] # Q0
    /\ \A i \in 1..n, part \in Parts : n = 1 \/ Implied(y, st, n, i, part, usediag) # Q0
Init == c = <<>> /\ done = FALSE
Retry == ~done /\ UNCHANGED vars
Make ==
    /\ c = <<>> /\ done' = TRUE
    /\ \E n \in {Draw(RandInt(MinN, MaxN))}, st \in {Draw(RandomElement({"sym", "lap"}))},
          ud \in {Draw(RandomElement(BOOLEAN))}, rd \in {Draw(RandomElement(BOOLEAN))}, lp \in {Draw(RandomElement(Lambdas))},
          best \in {Draw(RandomElement(BOOLEAN))}, wrong \in {Draw(RandomElement(BOOLEAN))} :
       \E y \in {Draw(RandMat(n, 0))} :
         CASE Kind = "lasso" -> /\ Good(y, st, n, FALSE)
                                /\ c' = [kind |-> "lasso", n |-> n, st |-> st, y |-> y, rows |-> Sparse(y, st, n, Cells(st, n))]
           [] Kind = "complex" -> /\ Good(y, st, n, ud)
                                  /\ c' = [kind |-> "complex", n |-> n, st |-> st, y |-> y, ud |-> ud, rd |-> rd, lp |-> lp,
                                           rows |-> Sparse(y, st, n, OffCells(n)) \cup Contrast(y, st, n, lp, ud)
                                                    \cup (IF rd THEN Diag(y, st, n, lp) ELSE {})]
           [] Kind = "loads" -> c' = [kind |-> "loads", n |-> n, st |-> "sym", y |-> y,
                                      rows |-> Exact(y, "sym", n, Q1, OffCells(n), Q1)]
           [] Kind = "known" ->
                \* a network in which the lines at the known nodes are the documented ones
                LET free == {x \in (1..n) \X (1..n) : {x[1] - 1, x[2] - 1} \cap KnownNodes(best) = {}}
                    lines == {<<l[1] + 1, l[2] + 1>> : l \in KnownLines(best)} \cup {<<l[2] + 1, l[1] + 1>> : l \in KnownLines(best)}
                    ys == TLCEval([i \in 1..n |-> [j \in 1..n |-> y[MaxOf(i, j)][MinOf(i, j)]]])
                    yb == TLCEval(Mtx(n, free \cup lines \cup {<<i, i>> : i \in 1..n}, ys))
                IN c' = [kind |-> "known", n |-> n, st |-> st, y |-> yb, lp |-> lp, best |-> best, wrong |-> wrong,
                         rows |-> Exact(yb, st, n, IF wrong THEN QMul(lp, <<1, 100>>) ELSE lp, KnownCells(best, n),
                                        IF wrong THEN <<11, 10>> ELSE Q1)]
Spec == Init /\ [][Make \/ Retry]_vars

\* ------------------------------------------------------------------ theorems
Touched(r) == {r.coef[k][1] : k \in 1..Len(r.coef)}
DiagIdx == {Idx("sym", i, i, c.n, p) : i \in 1..c.n, p \in Parts}
\* no belief about a diagonal entry unless asked for
InvDiagFree == done /\ c.st = "sym" /\ (c.kind \in {"loads", "known"} \/ (c.kind = "complex" /\ ~c.rd)) =>
    \A r \in c.rows : Touched(r) \cap DiagIdx = {}
\* every off-diagonal part has exactly one sparsity belief
InvOnce == done /\ c.kind = "complex" => \A cl \in OffCells(c.n), p \in Parts :
    Cardinality({r \in c.rows : r.mu = Q0 /\ Touched(r) = {Idx(c.st, cl[1], cl[2], c.n, p)}}) = 1
\* the estimate itself fulfils the belief about its own line sums
ParamAt(k) == LET m == NPar(c.st, c.n) p == k \div m
                  cl == CHOOSE x \in Cells(c.st, c.n) : Pos(c.st, x[1], x[2], c.n) = (k % m) + 1
              IN Red(c.y, c.st, cl[1], cl[2])[p + 1]
InvOwnSums == done /\ c.kind = "complex" => (~c.ud => \A r \in c.rows : Len(r.coef) = c.n - 1 /\ c.n > 2 =>
    QSum([k \in 1..Len(r.coef) |-> QMul(r.coef[k][2], ParamAt(r.coef[k][1]))]) = r.mu)
\* all beliefs about a laplacian are about lines; all lines of a known node, once per part
InvKnown == done /\ c.kind = "known" =>
    \A i \in KnownNodes(c.best), j \in 0..(c.n - 1), p \in Parts : i # j =>
        Cardinality({r \in c.rows : Touched(r) = {Idx(c.st, MaxOf(i, j) + 1, MinOf(i, j) + 1, c.n, p)}}) = 1
InvCount == done => CASE c.kind = "lasso" -> Cardinality(c.rows) = 2 * NPar(c.st, c.n)
                      [] c.kind = "known" -> Cardinality(c.rows) = 2 * (3 * (c.n - 3) + 3)
                      [] OTHER -> TRUE
EmitCase == done => Emit([c EXCEPT !.rows = SeqOf(@)])
=============================================================================
