-------------------------------- MODULE Loads --------------------------------
(* C12. Load profiles: household counts from nominal powers, the windows of time, and the blending of constant      *)
(* nodes. Profiles are integers (W or var); the nominal power of a node is (count + off) times the mean 90th         *)
(* percentile of the selected rows, with |off| < 1/2, so that exactly count households are due.                     *)
(* Mode "file": small profile files read by both readers; "big": many households, to see which ones are drawn;      *)
(* "stage": the load stage of a simulation over weeks and days; "gauss": its Gaussian loads.                        *)
EXTENDS Num
CONSTANTS MaxR, MaxH, MaxN, Mode
VARIABLES cf, done
vars == <<cf, done>>
\* a random value, drawn anew each time (TLC keeps the value of constant expressions)
Draw(e) == TLCEval(IF done THEN e ELSE e)
Offs == {<<-2, 5>>, <<-1, 3>>, Q0, <<1, 7>>, <<2, 5>>}
RECURSIVE SortedSeq(_)
SortedSeq(s) == IF s = <<>> THEN <<>>
                ELSE LET p == Head(s) r == Tail(s)
                     IN SortedSeq(SelectSeq(r, LAMBDA x : x < p)) \o <<p>> \o SortedSeq(SelectSeq(r, LAMBDA x : x >= p))
\* percentile by linear interpolation between order statistics
P90(s) == LET o == TLCEval(SortedSeq(s)) n == Len(s) h == 9 * (n - 1) k == (h \div 10) + 1 f == h % 10
          IN IF f = 0 THEN QI(o[k]) ELSE QAdd(QI(o[k]), Q(f * (o[k + 1] - o[k]), 10))
QMean(s) == QMul(QSum(s), <<1, Len(s)>>)
Label(n) == RandomElement({[k \in 1..n |-> k], [k \in 1..n |-> k + 3], [k \in 1..n |-> IF n <= 10 THEN ((3 * k) % 11) + 1 ELSE ((7 * k) % 43) + 1], [k \in 1..n |-> 2 * (n - k) + 1]})
NVar(z) == RandomElement({1, 3})
Profile(r, h, neg) == Draw([t \in 1..r |-> [k \in 1..h |-> RandInt(IF neg THEN -60 ELSE 1, 99)]])
\* what is due to every node: one count and offset per phase, for active and reactive power
Due(n, ph, m) == Draw([i \in 1..n |-> [f \in 1..ph |-> [p |-> RandInt(0, m), q |-> RandInt(0, m), po |-> RandomElement(Offs), qo |-> RandomElement(Offs)]]])
Init == cf = <<>> /\ done = FALSE
PickFile == \E r \in {RandInt(4, MaxR)}, h \in {RandInt(1, MaxH)}, n \in {RandInt(1, MaxN)}, ph \in {NVar(0)}, k \in {RandInt(1, 3)} : \E len \in {RandInt(2, r)} :
            \E p \in {Profile(r, h, FALSE)}, q \in {Profile(r, h, TRUE)}, due \in {Due(n, ph, IF Mode = "big" THEN 300 ELSE 6)} :
            cf' = Draw([p |-> p, q |-> q, len |-> len, skip |-> [w \in 1..k |-> RandInt(0, r - len)], due |-> due,
                   seed |-> RandInt(0, 999)])
PickStage == \E n \in {RandInt(2, MaxN)}, ph \in {NVar(0)}, k \in {RandomElement({1, 2, 3, 5, 7})}, h \in {RandInt(1, MaxH)} : \E d \in {RandInt(1, 3)}, pcc \in {RandInt(1, n)} :
             \E due \in {Due(n, ph, 5)}, ids \in {Label(n)}, sym \in {Draw({i \in 1..n : RandInt(0, 3) = 0})} :
             cf' = Draw([weeks |-> [w \in 1..k |-> RandInt(0, 2)], days |-> d, pcc |-> pcc, ids |-> ids, sym |-> sym \ {pcc},
                    due |-> [i \in 1..n |-> [f \in 1..ph |-> IF i = pcc THEN [p |-> 0, q |-> 0, po |-> Q0, qo |-> Q0]
                                             ELSE IF i \in sym THEN due[i][1] ELSE due[i][f]]],
                    lp |-> [w \in 1..3 |-> [x \in 1..h |-> RandInt(50, 99)]], lq |-> [w \in 1..3 |-> [x \in 1..h |-> RandInt(-80, -20)]],
                    const |-> {i \in 1..n : RandInt(0, 2) = 0}, noconst |-> RandInt(0, 3) = 0, a |-> RandomElement({Q0, <<1, 2>>, <<21, 25>>, Q1}),
                    sd |-> <<RandInt(1, 40), 100>>, seed |-> RandInt(0, 999)])
Pick == cf = <<>> /\ UNCHANGED done /\ (IF Mode \in {"file", "big"} THEN PickFile ELSE PickStage)

\* ------------------------------------------------------------------ meaning
\* rows used, in order
Rows == FlattenSeq([w \in 1..Len(cf.skip) |-> [t \in 1..cf.len |-> cf.skip[w] + t]])
Ref(m) == QMean([h \in 1..Len(m[1]) |-> P90([t \in 1..Len(Rows) |-> Abs(m[Rows[t]][h])])])
\* over whole weeks of constant profiles, the percentile is that of the largest selected week
StageRef(l) == QMean([h \in 1..Len(l[1]) |-> LET S == {Abs(l[cf.weeks[k] + 1][h]) : k \in 1..Len(cf.weeks)} IN QI(CHOOSE x \in S : \A y \in S : y <= x)])
RefP == IF Mode \in {"file", "big"} THEN Ref(cf.p) ELSE StageRef(cf.lp)
RefQ == IF Mode \in {"file", "big"} THEN Ref(cf.q) ELSE StageRef(cf.lq)
NonNeg(x) == IF QLt(x, Q0) THEN Q0 ELSE x
Nominal(ref, m, off) == TLCEval(NonNeg(QMul(ref, QAdd(QI(m), off))))
Nominals == [i \in 1..Len(cf.due) |-> [f \in 1..Len(cf.due[i]) |-> LET d == cf.due[i][f] IN
                [p |-> Nominal(RefP, d.p, d.po), q |-> Nominal(RefQ, d.q, d.qo)]]]
RoundQ(x) == (2 * x[1] + x[2]) \div (2 * x[2])
Fin == /\ cf # <<>> /\ ~done /\ (IF QLt(Q0, RefP) /\ QLt(Q0, RefQ) THEN TRUE ELSE FALSE) /\ done' = TRUE /\ UNCHANGED cf
Spec == Init /\ [][Pick \/ Fin]_vars
\* the counts are what rounding the nominal powers gives
InvCount == done => \A i \in 1..Len(cf.due), f \in 1..Len(cf.due[1]) :
    LET d == cf.due[i][f] nm == Nominals[i][f] IN
    RoundQ(QDiv(nm.p, RefP)) = d.p /\ RoundQ(QDiv(nm.q, RefQ)) = d.q
InvLen == done /\ Mode = "file" => Len(Rows) = cf.len * Len(cf.skip)
\* minutes of a stage: as many as the requested days, shared evenly by the windows, which start with their week
Upto(k) == (k * cf.days * 1440) \div Len(cf.weeks)
Windows == [k \in 1..Len(cf.weeks) |-> <<cf.weeks[k] * 7 * 1440, Upto(k) - Upto(k - 1)>>]
InvWindows == done /\ Mode = "stage" => /\ SumSeq([k \in 1..Len(Windows) |-> Windows[k][2]]) = cf.days * 1440
                                          /\ \A j, k \in 1..Len(Windows) : Abs(Windows[j][2] - Windows[k][2]) <= 1
EmitCase == done => Emit([mode |-> Mode, cf |-> cf, nom |-> Nominals, rows |-> IF Mode \in {"file", "big"} THEN Rows ELSE <<>>,
                          windows |-> IF Mode \in {"file", "big"} THEN <<>> ELSE Windows])
=============================================================================
