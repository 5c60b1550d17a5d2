---------------------------- MODULE Measurement ----------------------------
(* C15. The measurement stage as a plan: ratings of the sensors, the grid of sampling times, the averaging factor,  *)
(* and the deviations of the noise of every series. Deviations are divided by the square root of div.               *)
EXTENDS Num
CONSTANTS MaxN, MaxT, Three
VARIABLES cf, done
vars == <<cf, done>>
\* a random value, drawn anew each time (TLC keeps the value of constant expressions)
Draw(e) == TLCEval(IF done THEN e ELSE e)
Ph == IF Three THEN 3 ELSE 1
RandG(b) == <<RandInt(-b, b), RandInt(-b, b)>>
Label(n) == RandomElement({[k \in 1..n |-> k], [k \in 1..n |-> k + 3], [k \in 1..n |-> IF n <= 10 THEN ((3 * k) % 11) + 1 ELSE ((7 * k) % 43) + 1], [k \in 1..n |-> 2 * (n - k) + 1]})
\* nominal powers in hundredths, one per phase; sym nodes have the same on every phase
Power(z) == RandInt(-3, 9)
Init == cf = <<>> /\ done = FALSE
Pick == /\ cf = <<>> /\ UNCHANGED done
        /\ \E n \in {RandInt(2, MaxN)}, T \in {RandInt(2, MaxT)} : \E pcc \in {RandInt(1, n)}, sym \in {Draw({i \in 1..n : RandInt(0, 2) = 0})},
              gen \in {Draw({i \in 1..n : RandInt(0, 6) = 0})} :          \* nodes without any load
           \E r \in {Draw([p |-> [i \in 1..n |-> [ph \in 1..Ph |-> Power(0)]], q |-> [i \in 1..n |-> [ph \in 1..Ph |-> Power(1)]]])} :
           cf' = Draw([pcc |-> pcc, gen |-> gen \ {pcc}, turn |-> RandInt(0, 3), sym |-> IF Three THEN sym \ {pcc} ELSE {}, ids |-> Label(n),
                  p |-> [i \in 1..n |-> [ph \in 1..Ph |-> IF i = pcc \/ i \in gen THEN 0 ELSE IF i \in sym THEN r.p[i][1] ELSE r.p[i][ph]]],
                  q |-> [i \in 1..n |-> [ph \in 1..Ph |-> IF i = pcc \/ i \in gen THEN 0 ELSE IF i \in sym THEN r.q[i][1] ELSE r.q[i][ph]]],
                  safety |-> [ph \in 1..Ph |-> Q(RandInt(1, 12), 2)],
                  v |-> [t \in 1..T |-> [k \in 1..Ph * n |-> GAdd(<<20, 0>>, RandG(3))]], i |-> [t \in 1..T |-> [k \in 1..Ph * n |-> RandG(9)]],
                  per_min |-> RandInt(1, 9),       \* samples per minute
                  steps |-> RandInt(1, 2 * T), equiv |-> RandInt(0, 1) = 1, zero |-> RandInt(0, 5) = 0,
                  vm |-> <<RandInt(1, 30), 1000>>, cm |-> <<RandInt(1, 9), 100>>, vp |-> <<RandInt(1, 30), 1000>>, cp |-> <<RandInt(1, 30), 1000>>,
                  seed |-> RandInt(0, 999)])
N == Len(cf.ids)
Samples == (Len(cf.v) - 1) * cf.per_min            \* one time stamp per minute
F == Samples \div cf.steps
\* the averaged grid is a rounded quotient; halves are left out
Rounded(a, b) == (2 * a + b) \div (2 * b)
Half(a, b) == (2 * a + b) % (2 * b) = 0
Possible == F >= 1 /\ ~Half(Samples, F) /\ Rounded(Samples, F) >= 2
Fin == cf # <<>> /\ ~done /\ (IF Possible THEN TRUE ELSE FALSE) /\ done' = TRUE /\ UNCHANGED cf
Spec == Init /\ [][Pick \/ Fin]_vars

\* ------------------------------------------------------------------ meaning
S2(i, ph) == Q(cf.p[i][ph] * cf.p[i][ph] + cf.q[i][ph] * cf.q[i][ph], 10000)
Own(i, ph, safety) == QMul(safety[ph], S2(i, ph))
Rating(i, ph, safety) == IF i = cf.pcc THEN QSum([k \in 1..N |-> Own(k, ph, safety)]) ELSE Own(i, ph, safety)
\* measurements: the phases of each node one after the other
Ratings(safety) == TLCEval([k \in 1..Ph * N |-> Rating(((k - 1) \div Ph) + 1, ((k - 1) % Ph) + 1, safety)])
Four == [ph \in 1..Ph |-> QI(4)]
Z(x) == IF cf.zero THEN Q0 ELSE x
Plan == [ratings |-> Ratings(cf.safety), default |-> Ratings(Four), f |-> F,
         grid |-> IF cf.equiv THEN Rounded(Samples, F) ELSE Samples, block |-> IF cf.equiv THEN 1 ELSE F, div |-> IF cf.equiv THEN F ELSE 1,
         mag |-> [k \in 1..Ph * N |-> Z(cf.vm)] \o [k \in 1..Ph * N |-> QMul(Z(cf.cm), Ratings(cf.safety)[k])],
         phs |-> [k \in 1..Ph * N |-> Z(cf.vp)] \o [k \in 1..Ph * N |-> Z(cf.cp)]]
\* the connection's sensor is rated for the sum of the others; averaging never yields fewer rows than asked for
InvPcc == done => \A ph \in 1..Ph : Ratings(cf.safety)[Ph * (cf.pcc - 1) + ph] =
            QSum([k \in 1..(N - 1) |-> LET i == IF k < cf.pcc THEN k ELSE k + 1 IN Ratings(cf.safety)[Ph * (i - 1) + ph]])
InvIdle == done => \A i \in cf.gen, ph \in 1..Ph : Ratings(cf.safety)[Ph * (i - 1) + ph] = Q0
InvRows == done => LET pl == TLCEval(Plan) IN (pl.grid \div pl.block >= cf.steps \/ cf.equiv) /\ pl.f * cf.steps <= Samples
EmitCase == done => Emit([three |-> Three, cf |-> cf, plan |-> Plan])
=============================================================================
