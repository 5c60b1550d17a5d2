------------------------------ MODULE Resample ------------------------------
(* C11. Resampling: linear interpolation of every series on the new times, then noise of that series' own deviations *)
(* on every new sample, then averages of full blocks. The noise function is a recording stand-in given by the       *)
(* environment: noise(v, m, p) = m v^2 + p, which is not linear, so that its place in the pipeline matters.         *)
(* Noise functions proper: the relative deviations of every sample are draws that depend only on the seed and the   *)
(* shape of the data; a case is a pair of data matrices and deviations that have to reveal the same draws.          *)
EXTENDS Num
CONSTANTS MaxOld, MaxNew, MaxS, B, Mode
VARIABLES cf, done
vars == <<cf, done>>
\* a random value, drawn anew each time (TLC keeps the value of constant expressions)
Draw(e) == TLCEval(IF done THEN e ELSE e)
RandG(k) == <<RandInt(-B, B), RandInt(-B, B)>>
\* increasing integer times
RECURSIVE Times(_, _)
Times(k, from) == IF k = 0 THEN <<>> ELSE LET t == Draw(RandInt(from, from + 2)) IN <<t>> \o Times(k - 1, t + 1)
Sds == {Q0, <<1, 2>>, QI(2), <<3, 4>>, QI(-1)}
NzDirs == {<<3, 4>>, <<-3, 4>>, <<3, -4>>, <<-4, -3>>, <<1, 1>>, <<-5, 12>>, <<0, 2>>, <<7, -1>>}
Init == cf = <<>> /\ done = FALSE
PickFilter ==
    \E o \in {RandInt(2, MaxOld)}, s \in {RandInt(1, MaxS)}, fp \in {RandInt(1, 4)} : \E old \in {Draw(Times(o, RandInt(-2, 3)))} :
    \E m \in {RandInt(1, MaxNew)} :
    \E c \in {[fp |-> fp, old |-> old,
               new |-> [k \in 1..m |-> Q(RandInt(4 * old[1], 4 * old[o]), 4)],
               x |-> [t \in 1..o |-> [j \in 1..s |-> RandG(0)]],
               noise |-> RandomElement({"none", "no_m", "no_p", "scalar", "each", "mixed"}),
               sm |-> [j \in 1..s |-> RandomElement(Sds)], sp |-> [j \in 1..s |-> RandomElement(Sds)]]} : cf' = c
PickNoise ==
    \E T \in {RandInt(1, MaxNew)}, s \in {RandInt(1, MaxS)} :
    \E c \in {[seed |-> RandInt(0, 99),
               a |-> [t \in 1..T |-> [j \in 1..s |-> RandomElement(NzDirs)]], b |-> [t \in 1..T |-> [j \in 1..s |-> RandomElement(NzDirs)]],
               each |-> RandInt(0, 1) = 1,
               ma |-> [j \in 1..s |-> <<RandInt(1, 9), 1000>>], mb |-> [j \in 1..s |-> <<RandInt(1, 9), 1000>>],
               pa |-> [j \in 1..s |-> <<RandInt(1, 9), 10000>>], pb |-> [j \in 1..s |-> <<RandInt(1, 9), 10000>>]]} : cf' = c
Pick == cf = <<>> /\ (IF Mode = "filter" THEN PickFilter ELSE PickNoise) /\ UNCHANGED done
Fin == cf # <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED cf
Spec == Init /\ [][Pick \/ Fin]_vars

\* ------------------------------------------------------------------ meaning
\* linear interpolation of series j at time t (a rational inside the old times)
Interp(j, t) ==
    LET k == CHOOSE i \in 1..(Len(cf.old) - 1) : QLe(QI(cf.old[i]), t) /\ QLe(t, QI(cf.old[i + 1]))
        h == QDiv(QSub(t, QI(cf.old[k])), QI(cf.old[k + 1] - cf.old[k]))
        u == G2C(cf.x[k][j])
        v == G2C(cf.x[k + 1][j])
    IN CAdd(u, CScale(h, CSub(v, u)))
Noisy == cf.noise \in {"scalar", "each", "mixed"}
M(j) == IF cf.noise = "each" THEN cf.sm[j] ELSE cf.sm[1]
P(j) == IF cf.noise \in {"each", "mixed"} THEN cf.sp[j] ELSE cf.sp[1]
Sample(j, t) == LET v == TLCEval(Interp(j, t)) IN IF Noisy THEN CAdd(CScale(M(j), CMul(v, v)), <<P(j), Q0>>) ELSE v
Steps == Len(cf.new) \div cf.fp
Out(noisy) == [b \in 1..Steps |-> [j \in 1..Len(cf.x[1]) |->
          CScale(<<1, cf.fp>>, CSum([k \in 1..cf.fp |-> IF noisy THEN Sample(j, cf.new[(b - 1) * cf.fp + k]) ELSE Interp(j, cf.new[(b - 1) * cf.fp + k])]))]]
\* averages of noise-free samples stay between the extreme old samples; old samples are kept
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
InvRange == done /\ Mode = "filter" => \A j \in 1..Len(cf.x[1]) :
    LET lo == Min({cf.x[k][j][1] : k \in 1..Len(cf.old)}) IN \A b \in 1..Steps : QLe(QI(lo), Out(FALSE)[b][j][1])
InvKeep == done /\ Mode = "filter" => \A k \in 1..Len(cf.old), j \in 1..Len(cf.x[1]) : Interp(j, QI(cf.old[k])) = G2C(cf.x[k][j])
\* cartesian deviations: mean absolute parts times the accuracy over three
CartSd(x, part, acc) == [j \in 1..Len(x[1]) |->
    QDiv(QMul(acc, QDiv(QI(SumSeq([t \in 1..Len(x) |-> Abs(x[t][j][part])])), QI(Len(x)))), QI(3))]
EmitCase == done => Emit(IF Mode = "filter" THEN [mode |-> Mode, cf |-> cf, out |-> Out(Noisy), clean |-> Out(FALSE)]
                         ELSE [mode |-> Mode, cf |-> cf,
                               rsd |-> CartSd(cf.a, 1, cf.ma[1]), isd |-> CartSd(cf.a, 2, cf.mb[1])])
=============================================================================
