-------------------------------- MODULE Report --------------------------------
(* C21. The result report. A case is what an identification saved: the reference, whichever estimates exist with      *)
(* their iterations, which phase or sequence (or all three) they are for, and how the report is asked to show them.   *)
(* The report either leaves the matrices as they are or converts all of them; its metrics are those of the matrices   *)
(* it shows.                                                                                                           *)
EXTENDS Eisen, SequencesExt
CONSTANTS MaxN, B
VARIABLES cf, done
vars == <<cf, done>>
\* a random value, drawn anew each time (TLC keeps the value of constant expressions)
Draw(e) == TLCEval(IF done THEN e ELSE e)
RandW(z) == IF RandInt(1, 4) <= z THEN W0 ELSE <<QI(RandInt(-B, B)), QI(RandInt(-B, B))>>
SymM(n, z) == LET U == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<QI(RandInt(1, B)), QI(RandInt(-B, -1))>> ELSE RandW(z)]]) IN
              [i \in 1..n |-> [j \in 1..n |-> U[MinOf(i, j)][MaxOf(i, j)]]]
ErrM(n, z) == [i \in 1..n |-> [j \in 1..n |-> RandW(z)]]
WMadd(P, Q2) == [i \in 1..NR(P) |-> [j \in 1..NC(P) |-> WAdd(P[i][j], Q2[i][j])]]
WMsub(P, Q2) == [i \in 1..NR(P) |-> [j \in 1..NC(P) |-> WSub(P[i][j], Q2[i][j])]]
Init == cf = <<>> /\ done = FALSE
Kinds == {"single", "phase", "sequence", "123", "012"}
\* labels of the columns of the measurements, and the one identified
Labels(kind, k, m, l) == CASE kind = "single" -> [j \in 1..k |-> 1]
                           [] kind = "phase" -> [j \in 1..(k + m) |-> IF j <= k THEN l ELSE ((l + (j % 2)) % 3) + 1]
                           [] kind = "sequence" -> [j \in 1..(k + m) |-> IF j > m THEN l ELSE (l + 1 + (j % 2)) % 3]
                           [] kind = "123" -> [j \in 1..(3 * k) |-> ((j - 1) % 3) + 1]
                           [] OTHER -> [j \in 1..(3 * k) |-> (j - 1) % 3]
Pick ==
    /\ cf = <<>> /\ UNCHANGED done
    /\ \E kind \in {Draw(RandomElement(Kinds))}, k0 \in {Draw(RandInt(1, MaxN))}, m \in {Draw(RandInt(1, 3))}, l0 \in {Draw(RandInt(0, 2))},
          z \in {Draw(RandInt(0, 3))}, its \in {Draw(RandInt(1, 4))} :
       \E k \in {IF kind \in {"123", "012"} THEN Draw(RandInt(1, MaxN \div 2)) ELSE k0}, l \in {IF kind = "phase" THEN l0 + 1 ELSE l0} :
       \E n \in {IF kind \in {"123", "012"} THEN 3 * k ELSE k} :
       \E y \in {Draw(SymM(n, z))}, eo \in {Draw(ErrM(n, 1))}, et \in {Draw(ErrM(n, 2))}, el \in {Draw(ErrM(n, 3))}, eb \in {Draw(SymM(n, 2))},
          ei \in {Draw([i \in 1..its |-> ErrM(n, 2)])} :
       \E c \in {Draw([kind |-> kind, n |-> n, h |-> Labels(kind, k, m, l),
                       ph |-> CASE kind = "single" -> "1" [] kind \in {"123", "012"} -> kind [] OTHER -> <<"0", "1", "2", "3">>[l + 1],
                       seq |-> RandInt(0, 1) = 0, lap |-> RandInt(0, 2) = 0, verb |-> RandInt(0, 2) = 0,
                       present |-> RandomElement({{}, {"S"}, {"S", "B"}, {"S", "B"}, {"S", "B", "U"}}),
                       y |-> y, o |-> WMadd(y, eo), t |-> WMadd(y, et), l |-> WMadd(y, el), b |-> WMadd(y, eb),
                       its |-> [i \in 1..its |-> [y |-> WMadd(y, ei[i]), target |-> RandInt(1, 50)]]])} : cf' = c
Fin == cf # <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED cf
Spec == Init /\ [][Pick \/ Fin]_vars
\* ------------------------------------------------------------------ what is shown
Conversion == CASE cf.kind = "012" /\ ~cf.seq -> "phase" [] cf.kind = "123" /\ cf.seq -> "seq" [] OTHER -> "none"
Shown(M) == CASE Conversion = "phase" -> ToPhase("adm", NR(M) \div 3, M)
              [] Conversion = "seq" -> ToSeq("adm", NR(M) \div 3, M) [] OTHER -> M
Cells == {<<i, j>> : i \in 1..cf.n, j \in 1..cf.n}
Tot(f(_), S) == LET s == SetToSeq(S) IN QSum([k \in 1..Len(s) |-> f(s[k])])
QMax(S) == CHOOSE m \in S : \A x \in S : QLe(x, m)
Abs2(M) == TLCEval([i \in 1..NR(M) |-> [j \in 1..NC(M) |-> WAbs2(M[i][j])]])
Metrics(Y, H) ==
    LET y2 == Abs2(Y) d2 == Abs2(TLCEval(WMsub(Y, H))) fro == Tot(LAMBDA c : d2[c[1]][c[2]], Cells)
        nz == {c \in Cells : Y[c[1]][c[2]] # W0}
    IN [fro2 |-> fro, max2 |-> QMax({d2[c[1]][c[2]] : c \in Cells}),
        rrms2 |-> QDiv(fro, Tot(LAMBDA c : y2[c[1]][c[2]], Cells)),
        map2 |-> QDiv(Tot(LAMBDA c : d2[c[1]][c[2]], nz), Tot(LAMBDA c : y2[c[1]][c[2]], nz)),
        \* a zero of a converted matrix is one up to rounding only
        mapped |-> Conversion = "none" \/ nz = Cells]
\* parameters that are no line: of every symmetric pair one entry, the average of both
Pars == {c \in Cells : IF cf.lap THEN c[1] > c[2] ELSE c[1] >= c[2]}
NoLine(Y) == {c \in Pars : c[1] = c[2] \/ (Y[c[1]][c[2]] = W0 /\ Y[c[2]][c[1]] = W0)}
Twice(M, c) == WAdd(M[c[1]][c[2]], M[c[2]][c[1]])
Sparsity(Y, H) ==
    LET s == NoLine(Y) d == [c \in s |-> WAbs2(WSub(Twice(H, c), Twice(Y, c)))] IN
    [fro2 |-> Tot(LAMBDA c : d[c], s), max2 |-> IF s = {} THEN Q0 ELSE QMax({d[c] : c \in s})]
\* rounding does not decide what is a line
Clear(Y) == Conversion = "none" \/ \A c \in Cells : c[1] # c[2] => Y[c[1]][c[2]] # W0
\* ------------------------------------------------------------------ theorems
\* conversions keep the Frobenius error: they are unitary up to a factor that cancels
InvUnitary == done => LET m == TLCEval(Metrics(TLCEval(Shown(cf.y)), TLCEval(Shown(cf.t)))) IN
    /\ m.fro2 = Tot(LAMBDA c : WAbs2(WSub(cf.y[c[1]][c[2]], cf.t[c[1]][c[2]])), Cells)
    /\ QLe(m.map2, m.rrms2)
InvSparse == done => QLe(Sparsity(cf.y, cf.o).fro2, QMul(QI(4), Tot(LAMBDA c : WAbs2(WSub(cf.y[c[1]][c[2]], cf.o[c[1]][c[2]])), Cells)))
EmitCase == done =>
    LET Y == TLCEval(Shown(cf.y)) M == TLCEval([k \in {"o", "t", "l", "b"} |-> Shown(cf[k])]) IN
    Emit([cf |-> cf, conv |-> Conversion, y |-> Abs2(Y), e |-> [k \in {"o", "t", "l", "b"} |-> Abs2(M[k])],
          eb |-> Abs2(WMsub(M["b"], Y)),
          metrics |-> [k \in {"o", "t", "l", "b"} |-> Metrics(Y, M[k])],
          clear |-> Clear(Y), sparse |-> [k \in {"o", "t", "l", "b"} |-> Sparsity(Y, M[k])],
          errors |-> [i \in 1..Len(cf.its) |-> Metrics(cf.y, cf.its[i].y).rrms2]  \* by InvUnitary
         ])
=============================================================================
