-------------------------------- MODULE Eiv --------------------------------
(* C09. The alternating iteration of the errors-in-variables identification. As in Regression the prior is an       *)
(* environment chosen such that parameters and targets are prescribed; the voltage estimate e of every iteration is *)
(* the exact minimiser, over e, of  |x - e|^2_Wx + |z - e Y|^2_Wz  for the current parameters Y.                     *)
(*   mode "flat":   no (or only one) weight given: both are the identity; several iterations                       *)
(*   mode "iso":    one weight per measured entry, equal for real and imaginary part; several iterations            *)
(*   mode "block":  full 2x2 weight blocks per measured entry; one iteration, the data is built backwards from e    *)
EXTENDS Stop
CONSTANTS MinN, MaxN, MaxT, Limit, Mode, YB
VARIABLES cf, ys, ms, ts, done
vars == <<cf, ys, ms, ts, done>>
RandG(b) == <<RandInt(-b, b), RandInt(-b, b)>>
RandM(r, c, b) == [i \in 1..r |-> [j \in 1..c |-> RandG(b)]]
Structs(n) == IF n = 1 THEN {"full", "sym"} ELSE {"full", "sym", "lap"}
CTh(y) == [p \in 1..Len(y) |-> G2C(y[p])]
RealOf(th0) == LET th == TLCEval(th0) IN
               TLCEval([p \in 1..(2 * Len(th)) |-> IF p <= Len(th) THEN th[p][1] ELSE th[p - Len(th)][2]])
\* entrywise 2x2 weights <<p, q, r>> (integers) applied to complex matrices
WApply(W0, M0) == LET W == TLCEval(W0) M == TLCEval(M0) IN TLCEval([i \in 1..NR(M) |-> [j \in 1..NC(M) |->
                  <<QAdd(QMul(QI(W[i][j][1]), M[i][j][1]), QMul(QI(W[i][j][2]), M[i][j][2])),
                    QAdd(QMul(QI(W[i][j][2]), M[i][j][1]), QMul(QI(W[i][j][3]), M[i][j][2]))>>]])
\* the inverse, for blocks with determinant 1
WInv(W) == [i \in 1..NR(W) |-> [j \in 1..NC(W) |-> <<W[i][j][3], -W[i][j][2], W[i][j][1]>>]]
WTerm(w, c) == QAdd(QAdd(QMul(QI(w[1]), QSq(c[1])), QMul(QI(2 * w[2]), QMul(c[1], c[2]))), QMul(QI(w[3]), QSq(c[2])))
WTerms(W0, M0) == LET W == TLCEval(W0) M == TLCEval(M0) IN
                  FlattenSeq([i \in 1..NR(M) |-> [j \in 1..NC(M) |-> WTerm(W[i][j], M[i][j])]])
\* the initial guess is any matrix: what the structure does not see is used by the first correction only
Beyond(st, n, some) == IF ~some \/ st = "full" THEN [i \in 1..n |-> [j \in 1..n |-> <<0, 0>>]]
                       ELSE LET g == [i \in 1..n |-> [j \in 1..n |-> RandG(1)]]
                            IN CHOOSE m \in {[i \in 1..n |-> [j \in 1..n |-> IF i = j THEN IF st = "lap" THEN h[i][i] ELSE <<0, 0>>
                                              ELSE IF i < j THEN h[i][j] ELSE <<-h[j][i][1], -h[j][i][2]>>]] : h \in {g}} : TRUE
Ones(T, n) == [i \in 1..T |-> [j \in 1..n |-> <<1, 0, 1>>]]
RandIso(T, n) == [i \in 1..T |-> [j \in 1..n |-> LET w == RandInt(1, 2) IN <<w, 0, w>>]]
\* det 1: invertible over the integers
UniBlocks == {<<1, b, 1 + b * b>> : b \in -2..2} \cup {<<2, 1, 1>>, <<2, -1, 1>>, <<5, 2, 1>>, <<2, 3, 5>>}
PosBlocks == UniBlocks \cup {<<2, 0, 3>>, <<3, 1, 2>>, <<4, -3, 4>>, <<1, 0, 4>>}
RandUni(T, n) == [i \in 1..T |-> [j \in 1..n |-> RandomElement(UniBlocks)]]
RandPos(T, n) == [i \in 1..T |-> [j \in 1..n |-> RandomElement(PosBlocks)]]

Init == cf = <<>> /\ ys = <<>> /\ ms = <<>> /\ ts = <<>> /\ done = FALSE
Common(n, T, st, lim) ==
    [n |-> n, T |-> T, st |-> st, lim |-> lim, u |-> IF Mode = "flat" THEN UnitsTied(n) ELSE UnitsWeighted(n),
     lam |-> RandomElement({<<1, 1>>, <<1, 2>>, <<4, 1>>, <<1, 4>>}),
     abs |-> RandomElement({Q0, <<3, 2>>, <<15, 1>>, <<50, 1>>}),
     rel |-> RandomElement({Q0, <<1, 30>>, <<3, 10>>, <<3, 5>>}),
     raw |-> Beyond(st, n, lim > 0 /\ RandInt(0, 2) > 0),
     given |-> IF Mode = "flat" THEN RandomElement({"none", "x", "z"}) ELSE "both"]
Setup ==
    /\ cf = <<>>
    /\ \E n \in {RandInt(MinN, MaxN)} : \E T \in {RandInt(1, IF Mode = "iso" /\ n > 1 THEN 1 ELSE MaxT)} :
       \E st \in {RandomElement(Structs(n))} : \E y0 \in {[p \in 1..NPar(st, n) |-> RandG(YB)]} :
         /\ ys' = <<y0>>
         /\ IF Mode = "block"
            THEN \E c \in {Common(n, T, st, 1)}, wx \in {RandUni(T, n)}, wz \in {RandPos(T, n)}, e \in {RandM(T, n, 2)}, r \in {RandM(T, n, 2)} :
                   LET Y == CMadd(MatOf(st, CTh(y0), n), ToC(c.raw))
                       da == WApply(WInv(wx), CMM(WApply(wz, ToC(r)), CHerm(Y)))
                   IN cf' = c @@ [wx |-> wx, wz |-> wz, e |-> ToC(e), x |-> CMadd(ToC(e), da), z |-> CMsub(CMM(ToC(e), Y), ToC(r))]
            ELSE \E c \in {Common(n, T, st, RandInt(0, Limit))}, x \in {RandM(T, n, 3)}, z \in {RandM(T, n, 3)},
                    wx \in {IF Mode = "flat" THEN Ones(T, n) ELSE RandIso(T, n)}, wz \in {IF Mode = "flat" THEN Ones(T, n) ELSE RandIso(T, n)} :
                   cf' = c @@ [wx |-> wx, wz |-> wz, e |-> <<>>, x |-> ToC(x), z |-> ToC(z)]
    /\ UNCHANGED <<ms, ts, done>>
Targets == {<<1, 1>>, <<2, 1>>, <<10, 1>>, <<11, 1>>, <<12, 1>>, <<40, 1>>, <<41, 1>>, <<100, 1>>, <<99, 1>>, <<7, 2>>}
Iterate ==
    /\ cf # <<>> /\ ~done /\ Len(ts) < cf.lim
    /\ \E y \in {[p \in 1..NPar(cf.st, cf.n) |-> RandG(YB)]}, s \in {RandomElement({1, -1})},
          t \in {RandomElement({u \in Targets : Len(ts) = 0 \/ (Len(ts) > 0 /\ NoTie(u, ts[Len(ts)], cf.abs, cf.rel))})},
          d \in {[p \in 1..(2 * NPar(cf.st, cf.n)) |-> RandInt(1, 4)]},
          l \in {[p \in 1..(2 * NPar(cf.st, cf.n)) |-> RandInt(-2, 2)]} :
         /\ \A k \in 1..Len(ys) : ys[k] # y
         /\ ys' = Append(ys, y) /\ ms' = Append(ms, [d |-> d, l |-> l, s |-> s]) /\ ts' = Append(ts, t)
         /\ done' = StopsAt(Append(ts, t), cf.abs, cf.rel, cf.lim)
    /\ UNCHANGED cf
Finish == cf # <<>> /\ ~done /\ cf.lim = 0 /\ done' = TRUE /\ UNCHANGED <<cf, ys, ms, ts>>
Spec == Init /\ [][Setup \/ Iterate \/ Finish]_vars

\* ------------------------------------------------------------------ the two half-steps
Yk(k) == IF k = 1 THEN CMadd(MatOf(cf.st, CTh(ys[1]), cf.n), ToC(cf.raw)) ELSE MatOf(cf.st, CTh(ys[k]), cf.n)
\* row t of the voltage correction: da (Y Dz Y^H + Dx) = (x Y - z) Dz Y^H
DaRow(t, Y, R) ==
    LET Dz(M) == [i \in 1..NR(M) |-> [j \in 1..cf.n |-> CScale(QI(cf.wz[t][j][1]), M[i][j])]]
        S == CMadd(CMM(Dz(Y), CHerm(Y)), [i \in 1..cf.n |-> [j \in 1..cf.n |-> IF i = j THEN CI(cf.wx[t][i][1], 0) ELSE C0]])
        b == CMM(Dz(<<R[t]>>), CHerm(Y))
    IN Tr(CSolve(Tr(S), Tr(b)))[1]
\* the voltage estimate of iteration k
Est(k) == IF Mode = "block" THEN cf.e
          ELSE LET Y == TLCEval(Yk(k)) R == TLCEval(CMsub(CMM(cf.x, Y), cf.z)) IN
               CMsub(cf.x, [t \in 1..cf.T |-> DaRow(t, Y, R)])
MMat(m) == TLCEval([p \in 1..Len(m.d) |-> [q \in 1..Len(m.d) |-> QI(m.l[p] * m.l[q] + IF p = q THEN m.d[p] ELSE 0)]])
Misfit(e, Y) == CMsub(CMM(e, Y), cf.z)
Step(k) ==
    LET e == TLCEval(Est(k))
        Y == TLCEval(Yk(k + 1))
        r == TLCEval(Misfit(e, Y))
        g == TLCEval(RealOf(AdjOf(cf.st, CMM(CHerm(e), WApply(cf.wz, r)), cf.n)))
        y == TLCEval(RealOf(CTh(ys[k + 1])))
        M == MMat(ms[k])
    IN [e |-> e, M |-> M, s |-> ms[k].s,
        mu |-> [p \in 1..Len(y) |-> QAdd(QSum([q \in 1..Len(y) |-> QMul(M[p][q], y[q])]), QDiv(g[p], cf.lam))],
        cost |-> WTerms(cf.wz, r) \o WTerms(cf.wx, CMsub(cf.x, e))]
\* ------------------------------------------------------------------ properties of the design
InvLimit == cf # <<>> => Len(ts) <= cf.lim
InvUnits == cf # <<>> => Consistent(cf.u)
InvFirstStop == \A k \in 2..(Len(ts) - 1) : ~StopsAt(SubSeq(ts, 1, k), cf.abs, cf.rel, cf.lim)
InvStruct == cf # <<>> /\ cf.st # "full" => \A k \in (IF cf.lim = 0 THEN 1 ELSE 2)..Len(ys) : LET Y == TLCEval(Yk(k)) IN
                /\ \A i, j \in 1..cf.n : Y[i][j] = Y[j][i]
                /\ cf.st = "lap" => \A i \in 1..cf.n : CSum(Y[i]) = C0
\* the correction is stationary: Wx (x - e) = Wz (e Y - z) Y^H
InvStationary ==
    done => \A k \in 1..Len(ts) : LET e == TLCEval(Est(k)) Y == TLCEval(Yk(k)) IN
              WApply(cf.wx, CMsub(cf.x, e)) = CMM(WApply(cf.wz, Misfit(e, Y)), CHerm(Y))
EmitCase == done =>
    Emit([mode |-> Mode, cf |-> cf, ys |-> [k \in 1..Len(ys) |-> Yk(k)], th |-> [k \in 1..Len(ys) |-> RealOf(CTh(ys[k]))],
          steps |-> [k \in 1..Len(ts) |-> Step(k)], ts |-> ts])
=============================================================================
