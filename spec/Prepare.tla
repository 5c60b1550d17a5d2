------------------------------ MODULE Prepare ------------------------------
(* C22. What every identification method is to be given, exactly: centred data, starting point, weights and settings. *)
(* Measurements are r d with a rational magnitude r and a Pythagorean direction d, so magnitudes are rational.       *)
EXTENDS Layout
CONSTANTS MaxN, Big
VARIABLES c, done
vars == <<c, done>>
\* a random value, drawn anew each time (TLC keeps the value of constant expressions)
Draw(e) == TLCEval(IF done THEN e ELSE e)
Dirs == {<<QI(1), Q0>>, <<Q0, QI(1)>>, <<QI(-1), Q0>>, <<<<3, 5>>, <<4, 5>>>>, <<<<4, 5>>, <<-3, 5>>>>, <<<<-3, 5>>, <<4, 5>>>>,
         <<<<12, 13>>, <<5, 13>>>>, <<<<5, 13>>, <<-12, 13>>>>}
Rads == {QI(1), QI(2), QI(3), <<3, 2>>, <<5, 2>>, <<7, 2>>, <<1, 2>>}
RandV(z) == [r |-> RandomElement(Rads), d |-> RandomElement(Dirs)]
Val(v) == CScale(v.r, v.d)
Vals(V) == [t \in 1..Len(V) |-> [j \in 1..Len(V[1]) |-> Val(V[t][j])]]
RandI(z) == <<<<RandInt(-7, 7), 2>>, <<RandInt(-7, 7), 2>>>>
\* centring
Mean(s) == CScale(<<1, Len(s)>>, CSum(s))
Column(M, j) == [t \in 1..Len(M) |-> M[t][j]]
PerSeries(M0) == LET M == TLCEval(M0) m == TLCEval([j \in 1..Len(M[1]) |-> Mean(Column(M, j))])
                 IN TLCEval([t \in 1..Len(M) |-> [j \in 1..Len(M[1]) |-> CSub(M[t][j], m[j])]])
Global(M0) == LET M == TLCEval(M0) m == TLCEval(Mean(FlattenSeq(M)))
              IN TLCEval([t \in 1..Len(M) |-> [j \in 1..Len(M[1]) |-> CSub(M[t][j], m)]])
CentredV(M, lap) == IF lap THEN Global(M) ELSE PerSeries(M)
CentredI(M, lap) == IF lap THEN M ELSE PerSeries(M)
\* without phase synchronization: voltage magnitudes, and currents relative to the phase of their voltage
Mags(V) == [t \in 1..Len(V) |-> [j \in 1..Len(V[1]) |-> <<V[t][j].r, Q0>>]]
Angled(V, I) == [t \in 1..Len(V) |-> [j \in 1..Len(V[1]) |-> CMul(I[t][j], CConj(V[t][j].d))]]
\* covariances: of which data, by which model, with which magnitude deviation (per column or one) and phase deviation
Plan(V, I, cf) ==
    LET unsync == cf.weighted /\ ~cf.sync IN
    [v |-> CentredV(IF unsync THEN Mags(V) ELSE Vals(V), cf.lap),
     i |-> CentredI(IF unsync THEN Angled(V, I) ELSE I, cf.lap),
     wv |-> IF ~cf.weighted THEN <<>>
            ELSE IF cf.sync THEN <<[model |-> "average", of |-> Vals(V), mag |-> <<cf.svm>>, ph |-> cf.svp, inv |-> TRUE]>>
            ELSE <<[model |-> "naive", of |-> Mags(V), mag |-> <<cf.svm>>, ph |-> QMul(QI(100), cf.svp), inv |-> TRUE]>>,
     wi |-> IF ~cf.weighted THEN <<>>
            ELSE <<[model |-> IF cf.sync THEN "average" ELSE "naive", of |-> I, mag |-> [j \in 1..Len(cf.pmu) |-> QMul(cf.sim, cf.pmu[j])],
                   ph |-> cf.sip, inv |-> TRUE]>>]
Standard(V, I, lap) == [v |-> CentredV(Vals(V), lap), i |-> CentredI(I, lap)]
\* the uncertainty analysis: the same data, and always the covariances themselves of the uncentred measurements
Analysis(V, I, cf) ==
    [wv |-> [model |-> "average", of |-> Vals(V), mag |-> <<cf.svm>>, ph |-> cf.svp, inv |-> FALSE],
     wi |-> [model |-> "average", of |-> I, mag |-> [j \in 1..Len(cf.pmu) |-> QMul(cf.sim, cf.pmu[j])], ph |-> cf.sip, inv |-> FALSE]]
Init == c = <<>> /\ done = FALSE
Make ==
    /\ c = <<>> /\ done' = TRUE
    /\ \E n \in {Draw(IF Big THEN 29 ELSE RandInt(2, MaxN))} :
       \E T \in {Draw(IF Big THEN 4 ELSE 2 * n + RandInt(2, 3))} :
       \E V \in {Draw([t \in 1..T |-> [j \in 1..n |-> RandV(t)]])}, I \in {Draw([t \in 1..T |-> [j \in 1..n |-> RandI(t)]])},
          cf \in {Draw([n |-> n, T |-> T, lap |-> ~Big /\ RandomElement(BOOLEAN), weighted |-> RandomElement(BOOLEAN), sync |-> RandInt(0, 2) > 0, exact |-> Big,
                   svm |-> RandomElement({<<1, 10>>, <<1, 20>>}), svp |-> RandomElement({<<1, 10>>, <<1, 50>>}),
                   sim |-> RandomElement({<<1, 10>>, <<1, 4>>}), sip |-> RandomElement({<<1, 10>>, <<1, 25>>}),
                   pmu |-> [j \in 1..n |-> RandomElement({<<1, 2>>, QI(1), QI(2), QI(3)})],
                   lasso |-> RandomElement((0..4) \cup (IF Big THEN {} ELSE {15})), its |-> RandomElement(IF Big THEN {1} ELSE (0..4) \cup {14}),
                   lamlasso |-> RandomElement({<<1, 10>>, <<1, 1>>, <<3, 1>>}), lameiv |-> RandomElement(IF Big THEN {QI(10), QI(1)} ELSE {<<1, 10>>, <<1, 1>>, <<1, 100>>}),
                   lamp |-> RandomElement({<<1, 1>>, <<5, 1>>, <<20, 1>>}), abs |-> RandomElement({Q0, <<1, 100>>, <<1, 10>>}),
                   rel |-> RandomElement({Q0, <<1, 20>>, <<1, 3>>}), ud |-> RandomElement(BOOLEAN), rd |-> RandomElement(BOOLEAN)])} :
         \E y \in {Draw([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<RandNZ(5), RandNZ(5)>> ELSE <<-RandInt(1, 5), RandInt(1, 5)>>]])} :
           c' = cf @@ [V |-> V, I |-> I, y |-> y, std |-> Standard(V, I, cf.lap), plan |-> Plan(V, I, cf), unc |-> Analysis(V, I, cf)]
Spec == Init /\ [][Make]_vars
\* ------------------------------------------------------------------ theorems
Zero(s) == CSum(s) = C0
InvCentred == done => IF c.lap THEN Zero(FlattenSeq(c.std.v)) /\ c.std.i = c.I
                      ELSE \A j \in 1..c.n : Zero(Column(c.std.v, j)) /\ Zero(Column(c.std.i, j)) /\ Zero(Column(c.plan.v, j)) /\ Zero(Column(c.plan.i, j))
\* offsets of the series do not matter (of all voltages together, if laplacian)
Shift(V, f(_)) == [t \in 1..Len(V) |-> [j \in 1..Len(V[1]) |-> CAdd(V[t][j], f(j))]]
InvOffset == done => LET o(j) == CI(IF c.lap THEN 3 ELSE j, 1 - (IF c.lap THEN 1 ELSE j)) IN
    CentredV(Shift(Vals(c.V), o), c.lap) = c.std.v /\ (c.lap \/ CentredI(Shift(c.I, o), FALSE) = c.std.i)
\* unsynchronized data does not depend on the phase reference of any sample
InvPhase == done /\ c.weighted /\ ~c.sync =>
    LET g == <<<<3, 5>>, <<4, 5>>>>
        V2 == [t \in 1..c.T |-> [j \in 1..c.n |-> IF (t + j) % 2 = 0 THEN [c.V[t][j] EXCEPT !.d = CMul(g, @)] ELSE c.V[t][j]]]
        I2 == [t \in 1..c.T |-> [j \in 1..c.n |-> IF (t + j) % 2 = 0 THEN CMul(g, c.I[t][j]) ELSE c.I[t][j]]]
    IN Mags(V2) = Mags(c.V) /\ Angled(V2, I2) = Angled(c.V, c.I)
\* the power each sensor sees is kept
InvPower == done /\ c.weighted /\ ~c.sync =>
    LET a == TLCEval(Angled(c.V, c.I)) IN \A t \in 1..c.T, j \in 1..c.n : CScale(c.V[t][j].r, a[t][j]) = CMul(CConj(Val(c.V[t][j])), c.I[t][j])
EmitCase == done => Emit([c EXCEPT !.V = Vals(@)])
=============================================================================
