----------------------------- MODULE Regression -----------------------------
(* C08. The iteration of the regularized regression. A behaviour chooses the data, then iterates; the prior is an   *)
(* environment that answers at every point with some quadratic model (M, mu) and penalty. The environment is chosen *)
(* such that the normal equations have a prescribed integer solution:                                               *)
(*     mu = M y' + (1/lambda) A^T (A y' - b),                                                                       *)
(* and such that the target |cost + lambda penalty| is prescribed, which makes every behaviour exact.               *)
EXTENDS Stop
CONSTANTS MinN, MaxN, MaxT, Limit, Bnd
VARIABLES cf, ys, ms, ts, done
vars == <<cf, ys, ms, ts, done>>
RandG(k) == <<RandInt(-Bnd, Bnd), RandInt(-Bnd, Bnd)>>
RandM(r, c) == [i \in 1..r |-> [j \in 1..c |-> RandG(0)]]
Structs(n) == IF n = 1 THEN {"full", "sym"} ELSE {"full", "sym", "lap"}
Init == cf = <<>> /\ ys = <<>> /\ ms = <<>> /\ ts = <<>> /\ done = FALSE
Setup == /\ cf = <<>>
         /\ \E n \in {RandInt(MinN, MaxN)}, T \in {RandInt(1, MaxT)} :
            \E st \in {RandomElement(Structs(n))} :
            \E c \in {[n |-> n, T |-> T, st |-> st, x |-> RandM(T, n), z |-> RandM(T, n),
                       lam |-> RandomElement({<<1, 1>>, <<1, 2>>, <<4, 1>>, <<1, 8>>}),
                       abs |-> RandomElement({Q0, <<3, 2>>, <<15, 1>>, <<50, 1>>}),
                       rel |-> RandomElement({Q0, <<1, 30>>, <<3, 10>>, <<3, 5>>}),
                       lim |-> RandInt(0, Limit), u |-> UnitsFree(n)]} :
            \* the initial guess is any matrix: its symmetric part is where the iteration starts
            /\ cf' = c
            /\ \E y0 \in {[p \in 1..NPar(st, n) |-> RandG(0)]} : ys' = <<y0>>
            /\ UNCHANGED <<ms, ts, done>>
Targets == {<<1, 1>>, <<2, 1>>, <<10, 1>>, <<11, 1>>, <<12, 1>>, <<40, 1>>, <<41, 1>>, <<100, 1>>, <<99, 1>>, <<7, 2>>}
\* the prior is a function: a point that is its own successor stays
Fixed == Len(ts) > 1 /\ ys[Len(ts)] = ys[Len(ts) + 1]
Iterate ==
    /\ cf # <<>> /\ ~done /\ Len(ts) < cf.lim /\ ~Fixed
    /\ \E y \in {[p \in 1..NPar(cf.st, cf.n) |-> RandG(0)]}, s \in {RandomElement({1, 1, 1, -1})}, t \in {RandomElement({u \in Targets : Len(ts) = 0 \/ (Len(ts) > 0 /\ NoTie(u, ts[Len(ts)], cf.abs, cf.rel))})},
          d \in {[p \in 1..(2 * NPar(cf.st, cf.n)) |-> RandInt(1, 4)]},
          l \in {[p \in 1..(2 * NPar(cf.st, cf.n)) |-> RandInt(-2, 2)]} :
         /\ \A k \in 1..Len(ys) : ys[k] # y
         /\ ys' = Append(ys, y) /\ ms' = Append(ms, [d |-> d, l |-> l, s |-> s]) /\ ts' = Append(ts, t)
         /\ done' = StopsAt(Append(ts, t), cf.abs, cf.rel, cf.lim)
    /\ UNCHANGED cf
\* a fixed point: the same parameters and the same target once more (a tie that the rule decides)
Repeat ==
    /\ cf # <<>> /\ ~done /\ Len(ts) >= 1 /\ Len(ts) < cf.lim
    /\ \E r \in {RandInt(0, 3)} : r = 0 \/ Fixed
    /\ LET k == Len(ts) IN
       /\ ys' = Append(ys, ys[k + 1]) /\ ms' = Append(ms, ms[k]) /\ ts' = Append(ts, ts[k])
       /\ done' = StopsAt(Append(ts, ts[k]), cf.abs, cf.rel, cf.lim)
    /\ UNCHANGED cf
Finish == cf # <<>> /\ ~done /\ cf.lim = 0 /\ done' = TRUE /\ UNCHANGED <<cf, ys, ms, ts>>
Spec == Init /\ [][Setup \/ Iterate \/ Repeat \/ Finish]_vars

\* ------------------------------------------------------------------ expected values
RealOf(th0) == LET th == TLCEval(th0) IN TLCEval([p \in 1..(2 * Len(th)) |-> IF p <= Len(th) THEN th[p][1] ELSE th[p - Len(th)][2]])
CTh(y) == [p \in 1..Len(y) |-> G2C(y[p])]
MMat(m) == TLCEval([p \in 1..Len(m.d) |-> [q \in 1..Len(m.d) |-> QI(m.l[p] * m.l[q] + IF p = q THEN m.d[p] ELSE 0)]])
Resid(y) == CMsub(CMM(ToC(cf.x), MatOf(cf.st, CTh(y), cf.n)), ToC(cf.z))
Grad(y) == RealOf(AdjOf(cf.st, CMM(CHerm(ToC(cf.x)), Resid(y)), cf.n))
Cost(y) == LET r == TLCEval(Resid(y)) IN QSum([i \in 1..NR(r) |-> QSum([j \in 1..NC(r) |-> CAbs2(r[i][j])])])
Mu(k) == LET y == TLCEval(RealOf(CTh(ys[k + 1]))) M == TLCEval(MMat(ms[k])) g == TLCEval(Grad(ys[k + 1])) IN
         [p \in 1..Len(y) |-> QAdd(QSum([q \in 1..Len(y) |-> QMul(M[p][q], y[q])]), QDiv(g[p], cf.lam))]
Pen(k) == QDiv(QSub(IF ms[k].s = 1 THEN ts[k] ELSE QNeg(ts[k]), Cost(ys[k + 1])), cf.lam)
\* ------------------------------------------------------------------ properties of the design
InvLimit == cf # <<>> => Len(ts) <= cf.lim
InvFirstStop == \A k \in 2..(Len(ts) - 1) : ~StopsAt(SubSeq(ts, 1, k), cf.abs, cf.rel, cf.lim)
InvUnits == cf # <<>> => Consistent(cf.u)
InvOneIter == cf # <<>> /\ cf.lim > 1 /\ done => Len(ts) >= 2
InvStruct == cf # <<>> /\ cf.st # "full" => \A k \in 1..Len(ys) : LET Y == MatOf(cf.st, CTh(ys[k]), cf.n) IN
                /\ \A i, j \in 1..cf.n : Y[i][j] = Y[j][i]
                /\ cf.st = "lap" => \A i \in 1..cf.n : CSum(Y[i]) = C0
EmitCase == done =>
    Emit([cf |-> cf, ys |-> [k \in 1..Len(ys) |-> MatOf(cf.st, CTh(ys[k]), cf.n)],
          th |-> [k \in 1..Len(ys) |-> RealOf(CTh(ys[k]))],
          M |-> [k \in 1..Len(ms) |-> MMat(ms[k])], mu |-> [k \in 1..Len(ms) |-> Mu(k)],
          pen |-> [k \in 1..Len(ms) |-> Pen(k)], ts |-> ts])
=============================================================================
