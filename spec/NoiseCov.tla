------------------------------ MODULE NoiseCov ------------------------------
(* C10. Covariances of polar noise in cartesian coordinates, in closed form and exactly: every measurement is r (c,s) *)
(* with a Pythagorean direction (c, s); the phase variance enters the exact and the conditioned covariance only      *)
(* through t = exp(variance), and the linearized one directly (v).                                                  *)
EXTENDS Layout
CONSTANTS MaxT, MaxN, Random
VARIABLES cf, done
vars == <<cf, done>>
Dirs == {<<QI(1), Q0>>, <<Q0, QI(1)>>, <<QI(-1), Q0>>, <<Q0, QI(-1)>>, <<<<3, 5>>, <<4, 5>>>>, <<<<-3, 5>>, <<4, 5>>>>,
         <<<<3, 5>>, <<-4, 5>>>>, <<<<-4, 5>>, <<-3, 5>>>>, <<<<5, 13>>, <<12, 13>>>>, <<<<-12, 13>>, <<5, 13>>>>}
Rads == {Q0, <<1, 2>>, QI(1), QI(3), <<5, 2>>}
Sds == {Q0, <<1, 10>>, <<1, 2>>, QI(1), QI(2)}
Ts == {Q1, <<3, 2>>, <<4, 3>>, QI(2), QI(3)}
Vs == {Q0, <<1, 100>>, <<1, 9>>, <<1, 2>>}
Kinds == {"exact", "naive", "average"}

Sin2(d) == QSq(d[2])
Cos2(d) == QSq(d[1])
SC(d) == QMul(d[1], d[2])
Half(q) == QMul(<<1, 2>>, q)
Cosh(t) == Half(QAdd(t, QInv(t)))
Sinh(t) == Half(QSub(t, QInv(t)))
QP(a, b) == QMul(a, b)
\* <<variance of the real part, of the imaginary part, covariance>>
Naive(r, d, s, v) ==
    LET mv == QSq(s) pv == QMul(QSq(r), v) IN
    <<QAdd(QP(Cos2(d), mv), QP(Sin2(d), pv)), QAdd(QP(Sin2(d), mv), QP(Cos2(d), pv)), QP(SC(d), QSub(mv, pv))>>
Exact(r, d, s, t) ==
    LET mv == QSq(s) m2 == QSq(r) e == QInv(t)
        Part(a, b) == QP(e, QAdd(QP(m2, QAdd(QP(a, QSub(Cosh(t), Q1)), QP(b, Sinh(t)))), QP(mv, QAdd(QP(a, Cosh(t)), QP(b, Sinh(t))))))
    IN <<Part(Cos2(d), Sin2(d)), Part(Sin2(d), Cos2(d)), QP(QP(SC(d), QP(e, e)), QAdd(mv, QP(m2, QSub(Q1, t))))>>
Average(r, d, s, t) ==
    LET mv == QSq(s) m2 == QSq(r) e2 == QInv(QSq(t)) c1 == Cosh(t) c2 == Cosh(QSq(t)) s1 == Sinh(t) s2 == Sinh(QSq(t))
        Part(a, b) == QP(e2, QAdd(QP(m2, QAdd(QP(a, QSub(c2, c1)), QP(b, QSub(s2, s1)))),
                                  QP(mv, QAdd(QP(a, QSub(QAdd(c2, c2), c1)), QP(b, QSub(QAdd(s2, s2), s1))))))
    IN <<Part(Cos2(d), Sin2(d)), Part(Sin2(d), Cos2(d)),
         QP(QP(SC(d), QP(e2, e2)), QAdd(mv, QP(QAdd(m2, mv), QSub(Q1, t))))>>
\* the phase of a zero measurement is zero
Cov(k, r, d0, s, tv) == LET d == IF r = Q0 THEN <<Q1, Q0>> ELSE d0 IN CASE k = "naive" -> Naive(r, d, s, tv) [] k = "exact" -> Exact(r, d, s, tv) [] OTHER -> Average(r, d, s, tv)

Init == cf = <<>> /\ done = FALSE
Pick == /\ cf = <<>> /\ done' = FALSE
        /\ IF Random
           THEN \E T \in {RandInt(1, MaxT)}, n \in {RandInt(1, MaxN)}, k \in {RandomElement(Kinds)}, e \in {RandInt(0, 1) = 1} :
                \E c \in {[T |-> T, n |-> n, kind |-> k, each |-> e, inv |-> RandInt(0, 1) = 1,
                           r |-> [i \in 1..T |-> [j \in 1..n |-> RandomElement(Rads)]],
                           d |-> [i \in 1..T |-> [j \in 1..n |-> RandomElement(Dirs)]],
                           s |-> IF e THEN [j \in 1..n |-> RandomElement(Sds)] ELSE <<RandomElement(Sds)>>,
                           tv |-> RandomElement(IF k = "naive" THEN Vs ELSE Ts)]} : cf' = c
           ELSE \E k \in Kinds, r \in Rads, d \in Dirs, s \in Sds : \E tv \in (IF k = "naive" THEN Vs ELSE Ts) :
                  cf' = [T |-> 1, n |-> 1, kind |-> k, each |-> FALSE, inv |-> FALSE, r |-> <<<<r>>>>, d |-> <<<<d>>>>, s |-> <<s>>, tv |-> tv]
Fin == cf # <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED cf
Spec == Init /\ [][Pick \/ Fin]_vars
At(i, j) == Cov(cf.kind, cf.r[i][j], cf.d[i][j], IF cf.each THEN cf.s[j] ELSE cf.s[1], cf.tv)
\* positive variances; rotating a measurement by 90 degrees swaps the parts; no noise, no covariance
InvPos == done => \A i \in 1..cf.T, j \in 1..cf.n : QLe(Q0, At(i, j)[1]) /\ QLe(Q0, At(i, j)[2])
Rot(d) == <<QNeg(d[2]), d[1]>>
InvRot == done => \A i \in 1..cf.T, j \in 1..cf.n : cf.r[i][j] # Q0 =>
            LET s == IF cf.each THEN cf.s[j] ELSE cf.s[1] a == At(i, j) b == Cov(cf.kind, cf.r[i][j], Rot(cf.d[i][j]), s, cf.tv)
            IN b = <<a[2], a[1], QNeg(a[3])>>
InvZero == done => \A i \in 1..cf.T, j \in 1..cf.n :
            ((IF cf.each THEN cf.s[j] ELSE cf.s[1]) = Q0 /\ cf.tv = (IF cf.kind = "naive" THEN Q0 ELSE Q1)) => At(i, j) = <<Q0, Q0, Q0>>
EmitCase == done => Emit([cf |-> cf, cov |-> [p \in 1..(cf.T * cf.n) |-> LET c == VecCell(p, cf.T) IN At(c[1], c[2])]])
=============================================================================
