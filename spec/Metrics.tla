------------------------------- MODULE Metrics -------------------------------
(* C17. Error metrics as squared norms over Gaussian integers (the driver takes the roots).                         *)
EXTENDS Units
CONSTANTS MaxR, MaxC, B, Random
VARIABLES cf, done
vars == <<cf, done>>
RandG(z) == IF RandInt(1, 3) <= z THEN <<0, 0>> ELSE <<RandInt(-B, B), RandInt(-B, B)>>
RandM(r, c, z) == [i \in 1..r |-> [j \in 1..c |-> RandG(z)]]
Small == {<<0, 0>>, <<1, 0>>, <<-2, 0>>, <<0, 1>>}
Init == cf = <<>> /\ done = FALSE
Pick == /\ cf = <<>> /\ UNCHANGED done
        /\ IF Random THEN \E r \in {RandInt(1, MaxR)}, c \in {RandInt(1, MaxC)}, z \in {RandInt(0, 2)} :
                          \E y \in {RandM(r, c, z)}, e \in {RandM(r, c, RandInt(0, 3))}, real \in {RandInt(0, 3) = 0} :
                            cf' = [y |-> IF real THEN [i \in 1..r |-> [j \in 1..c |-> <<y[i][j][1], 0>>]] ELSE y,
                                   h |-> [i \in 1..r |-> [j \in 1..c |-> IF real THEN <<y[i][j][1] + e[i][j][1], 0>> ELSE GAdd(y[i][j], e[i][j])]]]
           ELSE \E a, b, c, d \in Small : cf' = [y |-> <<<<a, b>>>>, h |-> <<<<c, d>>>>]
Fin == cf # <<>> /\ ~done /\ (\E i \in 1..NR(cf.y), j \in 1..NC(cf.y) : cf.y[i][j] # <<0, 0>>) /\ done' = TRUE /\ UNCHANGED cf
Spec == Init /\ [][Pick \/ Fin]_vars
N2(x) == x[1] * x[1] + x[2] * x[2]
All == {<<i, j>> : i \in 1..NR(cf.y), j \in 1..NC(cf.y)}
Seqs(S) == FlattenSeq([i \in 1..NR(cf.y) |-> SelectSeq([j \in 1..NC(cf.y) |-> <<i, j>>], LAMBDA p : p \in S)])
Dif(p) == N2(GSub(cf.y[p[1]][p[2]], cf.h[p[1]][p[2]]))
Tru(p) == N2(cf.y[p[1]][p[2]])
Total(f(_), S) == LET s == Seqs(S) IN SumSeq([k \in 1..Len(s) |-> f(s[k])])
NonZero == {p \in All : cf.y[p[1]][p[2]] # <<0, 0>>}
Fro2 == Total(Dif, All)
Max2 == CHOOSE m \in {Dif(p) : p \in All} : \A p \in All : Dif(p) <= m
\* relative errors in percent, squared
Rrms2 == Q(Fro2, Total(Tru, All))
Map2 == Q(Total(Dif, NonZero), Total(Tru, NonZero))
InvOrder == done => /\ Max2 <= Fro2 /\ Fro2 <= Max2 * Cardinality(All)
                    /\ QLe(Map2, Rrms2)
                    /\ (Fro2 = 0) <=> (cf.y = cf.h)
                    /\ (Map2 = Q0) <=> \A p \in NonZero : cf.y[p[1]][p[2]] = cf.h[p[1]][p[2]]
EmitCase == done => Emit([units |-> <<-60, -30, 17, 45>>, y |-> cf.y, h |-> cf.h, fro2 |-> Fro2, max2 |-> Max2, rrms2 |-> Rrms2, map2 |-> Map2])
=============================================================================
