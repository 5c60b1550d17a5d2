-------------------------------- MODULE Kron --------------------------------
(* C14. Removing nodes from an admittance matrix. The exact Schur complement is obtained without fractions          *)
(* (Bareiss): eliminating the nodes E of Y leaves M / p with p = det Y_EE, both Gaussian integers.                  *)
(* Mode "small":   exhaustive small Laplacians, to check the theorems (order, grouping, symmetry, zero row sums).   *)
(* Mode "matrix":  matrices given to kron_reduction (Laplacians, and general ones with invertible blocks).          *)
(* Mode "net":     single-phase networks: which nodes are removed, which shunts they get, what is reported.         *)
(* With Big, larger networks of which any number of nodes is removed: the eliminated block is a product of unit      *)
(* triangular factors, so that the elimination stays exact in small integers.                                       *)
(* Mode "phase":   three-phase networks reduced phase by phase.   Mode "node": only nodes passive on every phase.   *)
EXTENDS Num, Elimination
CONSTANTS MaxN, Mode, Big
VARIABLES cf, done
vars == <<cf, done>>
\* a random value, drawn anew each time (TLC keeps the value of constant expressions)
Draw(e) == TLCEval(IF done THEN e ELSE e)
Ws == {<<1, 0>>, <<2, 0>>, <<1, -1>>, <<2, -1>>, <<0, -1>>, <<1, -2>>, <<3, -2>>}

\* ------------------------------------------------------------------ meaning
Laplacian(w, n) == [i \in 1..n |-> [j \in 1..n |-> IF i # j THEN GNeg(w[i][j]) ELSE GSum([k \in 1..n |-> IF k = i THEN G0 ELSE w[i][k]])]]
Sub(Y, S) == LET s == SetToSortedSeq(S) IN [a \in 1..Len(s) |-> [b \in 1..Len(s) |-> Y[s[a]][s[b]]]]
Pos(S, i) == Cardinality({j \in S : j <= i})
RECURSIVE Reach(_, _, _)
Reach(w, n, S) == LET T == S \cup {j \in 1..n : \E i \in S : w[i][j] # G0} IN IF T = S THEN S ELSE Reach(w, n, T)
Connected(w, n) == Reach(w, n, {1}) = 1..n

\* reduction of a network. PCC nodes leave first (unless a Laplacian is wanted), hidden nodes become the
\* constant admittance that draws their mean current at their mean voltage: currents are injected, c.shunt is the
\* ratio of the two means, so that minus this ratio is the admittance to the ground.
Gone(c) == c.hidden \cup c.passive
Shunted(c) == LET pcc == c.pcc IN [i \in 1..Len(c.y) |-> [j \in 1..Len(c.y) |->
                 IF i = j /\ i \in c.hidden \ pcc THEN GSub(c.y[i][i], c.shunt[i]) ELSE c.y[i][j]]]
NetKeep(c) == IF c.lap THEN 1..Len(c.y) ELSE (1..Len(c.y)) \ c.pcc
NetLeft(c) == NetKeep(c) \ ((c.hidden \ c.pcc) \cup c.passive)
NetElim(c) == (c.hidden \ c.pcc) \cup c.passive
Reduced(c) == LET keep == NetKeep(c) IN Schur(Sub(Shunted(c), keep), SetToSortedSeq({Pos(keep, i) : i \in NetElim(c)}))

\* three phases: element 3 (node - 1) + phase
El(i, ph) == 3 * (i - 1) + ph
PhElim(c) == {El(i, ph) : i \in c.hidden \ c.pcc, ph \in 1..3} \cup UNION {{El(i, ph) : i \in c.pas[ph]} : ph \in 1..3}
PhPcc(c) == {El(i, ph) : i \in c.pcc, ph \in 1..3}
PhShunted(c) == [a \in 1..Len(c.y) |-> [b \in 1..Len(c.y) |-> IF a = b /\ ((a - 1) \div 3) + 1 \in c.hidden THEN GSub(c.y[a][a], c.shunt[a]) ELSE c.y[a][b]]]
PhKeep(c) == (1..Len(c.y)) \ PhPcc(c)
PhReduced(c) == LET keep == PhKeep(c) IN Schur(Sub(PhShunted(c), keep), SetToSortedSeq({Pos(keep, a) : a \in PhElim(c)}))
\* nodes passive on all phases only, each sequence on its own
AllPas(c) == c.pas[1] \cap c.pas[2] \cap c.pas[3]
SeqReduced(c, s) == LET n == Len(c.ys[1]) keep == (1..n) \ c.pcc
                        y == [i \in 1..n |-> [j \in 1..n |-> IF i = j /\ i \in c.hidden THEN GSub(c.ys[s][i][i], c.shunt[i]) ELSE c.ys[s][i][j]]]
                    IN Schur(Sub(y, keep), SetToSortedSeq({Pos(keep, i) : i \in (c.hidden \ c.pcc) \cup AllPas(c)}))

\* ------------------------------------------------------------------ cases
RandW(k) == IF RandInt(0, 2) = 0 THEN G0 ELSE RandomElement(Ws)
MkW(n, d, u, b, t) == LET e(i, j) == IF b[j] = i THEN t[j] ELSE IF d THEN u[i][j] ELSE G0
                      IN TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN G0 ELSE IF i < j THEN e(i, j) ELSE e(j, i)]])
\* a random tree keeps it connected (values drawn once, as elements of singletons)
Weights(n, d) == CHOOSE w \in {MkW(n, d, u, b, t) : u \in {Draw([i \in 1..n |-> [j \in 1..n |-> RandW(0)]])},
                                   b \in {Draw([i \in 1..n |-> IF i = 1 THEN 0 ELSE RandInt(1, i - 1)])},
                                   t \in {Draw([i \in 1..n |-> RandomElement(Ws)])}} : TRUE
RandSet(S, k) == Draw({x \in S : RandInt(1, 10) <= k})
\* the connections to the grid: mostly one
Pccs(n) == Draw(IF n > 2 /\ RandInt(0, 3) = 0 THEN {RandInt(1, n), RandInt(1, n)} ELSE {RandInt(1, n)})
RECURSIVE RandSeq(_)
RandSeq(S) == IF S = {} THEN <<>> ELSE CHOOSE s \in {<<x>> \o RandSeq(S \ {x}) : x \in {RandomElement(S)}} : TRUE
Perms(S) == {p \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => p[a] # p[b]}
RandG(b) == <<RandInt(-b, b), RandInt(-b, b)>>
\* unit triangular factors: every leading block of L U has determinant one
Unimod(n, b) == CHOOSE m \in {GMM(l, u) : l \in {Draw([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<1, 0>> ELSE IF i > j THEN RandG(b) ELSE G0]])},
                                   u \in {Draw([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<1, 0>> ELSE IF i < j THEN RandG(b) ELSE G0]])}} : TRUE
Units == {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>}
\* exponents of a congruent scaling D Y D (entries over many orders of magnitude): the result is scaled alike
Scales(n) == IF RandInt(0, 2) = 0 THEN [k \in 1..n |-> 0] ELSE [k \in 1..n |-> RandomElement({-10, -4, 0, 0, 3, 9})]
Label(n) == IF n > 10 THEN RandomElement({[k \in 1..n |-> k], [k \in 1..n |-> ((7 * k) % 43) + 1], [k \in 1..n |-> 2 * (n - k) + 1]}) ELSE RandomElement({[k \in 1..n |-> k], [k \in 1..n |-> k + 3], [k \in 1..n |-> ((3 * k) % 11) + 1], [k \in 1..n |-> 2 * (n - k) + 1]})
Init == cf = <<>> /\ done = FALSE
PickSmall == \E a, b, c, d \in {G0, <<1, 0>>, <<1, -1>>} : \E E \in SUBSET (2..4) :
    LET w == <<<<G0, a, G0, <<2, -1>>>>, <<a, G0, b, c>>, <<G0, b, G0, d>>, <<<<2, -1>>, c, d, G0>>>>
    IN Connected(w, 4) /\ cf' = [y |-> Laplacian(w, 4), es |-> SetToSortedSeq(E), lap |-> TRUE, sc |-> <<0, 0, 0, 0>>]
\* ------------------------------------------------------------------ larger ones
Few == {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>, <<-1, 1>>}
RandF(k) == IF RandInt(1, 10) <= k THEN RandomElement(Few) ELSE G0
BandU(k) == [i \in 1..k |-> [j \in 1..k |-> IF i = j THEN <<1, 0>> ELSE IF j > i /\ j - i <= 2 THEN RandF(5) ELSE G0]]
RandFill(n) == [i \in 1..n |-> [j \in 1..n |-> RandF(3)]]
\* G on the rows and columns in E (in order), f elsewhere, plus the ratios at H
Fill(n, E, G, f, sh, H) == [i \in 1..n |-> [j \in 1..n |->
    LET a == IF i \in E /\ j \in E THEN G[Pos(E, i)][Pos(E, j)] ELSE f[i][j] IN IF i = j /\ i \in H THEN GAdd(a, sh[i]) ELSE a]]
Mirror(f) == [i \in 1..Len(f) |-> [j \in 1..Len(f) |-> f[MinOf(i, j)][MaxOf(i, j)]]]
\* the grid connection balances the rows of all other nodes
Balance(y0, pcc) == LET n == Len(y0) y == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = pcc \/ j = pcc THEN G0 ELSE y0[i][j]]])
                        b == TLCEval([i \in 1..n |-> GNeg(GSum(y[i]))])
                    IN TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = pcc /\ j = pcc THEN GNeg(GSum(b))
                                                               ELSE IF i = pcc THEN b[j] ELSE IF j = pcc THEN b[i] ELSE y[i][j]]])
SymOf(n, E, u, f, sh, H) == Fill(n, E, GMM(Tr(u), u), Mirror(f), sh, H)
BigMatrix == \E n \in {RandInt(6, MaxN)}, sym \in {RandInt(0, 1) = 1} : \E E \in {RandSet(1..n, 6)} :
             \E l \in {Draw(BandU(Cardinality(E)))}, u \in {Draw(BandU(Cardinality(E)))}, f \in {Draw(RandFill(n))}, p \in {RandSeq(E)} :
             /\ Cardinality(E) < n
             /\ cf' = [y |-> IF sym THEN SymOf(n, E, u, f, <<>>, {}) ELSE Fill(n, E, GMM(Tr(l), u), f, <<>>, {}), lap |-> FALSE,
                       sc |-> [k \in 1..n |-> 0], es |-> p]
BigNet == \E n \in {RandInt(6, MaxN)} : \E pcc \in {RandInt(1, n)}, lap \in {RandInt(0, 1) = 1}, sh \in {Draw([i \in 1..n |-> RandG(2)])} :
          \E pas \in {RandSet((1..n) \ {pcc}, 4)}, hid \in {RandSet((1..n) \ {pcc}, 3)} :
          \E hidp \in {IF ~lap /\ RandInt(0, 1) = 1 THEN hid \cup {pcc} ELSE hid}, E \in {hid \cup pas} :
          \E u \in {Draw(BandU(Cardinality(E)))}, f \in {Draw(RandFill(n))} :
             /\ Cardinality(E) < n - 1
             /\ cf' = [given |-> TRUE, y |-> Balance(SymOf(n, E, u, f, sh, hid), pcc), pcc |-> {pcc}, lap |-> lap,
                       passive |-> pas, hidden |-> hidp, ids |-> Label(n), sc |-> [k \in 1..n |-> 0],
                       u |-> [i \in 1..n |-> RandomElement(Units)], dv |-> [i \in 1..n |-> RandG(2)], di |-> [i \in 1..n |-> RandG(2)], shunt |-> sh]
BigPh == \E n \in {RandInt(4, MaxN)} : \E pcc \in {RandInt(1, n)}, sh \in {Draw([a \in 1..3 * n |-> RandG(2)])} :
         \E p \in {<<RandSet((1..n) \ {pcc}, 3), RandSet((1..n) \ {pcc}, 5), RandSet((1..n) \ {pcc}, 3)>>},
            hid \in {IF RandInt(0, 2) = 0 THEN {} ELSE RandSet((1..n) \ {pcc}, 3)} :
         \E E \in {PhElim([hidden |-> hid, pas |-> p, pcc |-> {pcc}])}, hidp \in {hid \cup RandSet({pcc}, 3)} :
         \E l \in {Draw(BandU(Cardinality(E)))}, u \in {Draw(BandU(Cardinality(E)))}, f \in {Draw(RandFill(3 * n))} :
            /\ Cardinality(E) < 3 * n - 3
            /\ cf' = [y |-> Fill(3 * n, E, GMM(Tr(l), u), f, sh, {El(i, ph) : i \in hid, ph \in 1..3}), pcc |-> {pcc}, pas |-> p, hidden |-> hidp,
                      ids |-> Label(n), sc |-> [k \in 1..3 * n |-> 0],
                      u |-> [a \in 1..3 * n |-> RandomElement(Units)], dv |-> [a \in 1..3 * n |-> RandG(2)], di |-> [a \in 1..3 * n |-> RandG(2)], shunt |-> sh]
BigNode == \E n \in {RandInt(5, MaxN)} : \E pcc \in {RandInt(1, n)}, sh \in {Draw([i \in 1..n |-> RandG(2)])}, both \in {RandSet(1..n, 5)} :
           \E p \in {<<(both \cup RandSet(1..n, 2)) \ {pcc}, (both \cup RandSet(1..n, 3)) \ {pcc}, (both \cup RandSet(1..n, 2)) \ {pcc}>>},
              hid \in {IF RandInt(0, 1) > 0 THEN {} ELSE RandSet((1..n) \ {pcc}, 3)} :
           \E E \in {hid \cup (p[1] \cap p[2] \cap p[3])}, hidp \in {hid \cup RandSet({pcc}, 3)} :
           \E us \in {<<Draw(BandU(Cardinality(E))), Draw(BandU(Cardinality(E))), Draw(BandU(Cardinality(E)))>>},
              fs \in {<<Draw(RandFill(n)), Draw(RandFill(n)), Draw(RandFill(n))>>} :
              /\ Cardinality(E) < n - 1
              /\ cf' = [ys |-> [s \in 1..3 |-> Balance(SymOf(n, E, us[s], fs[s], sh, hid), pcc)], pcc |-> {pcc}, pas |-> p, hidden |-> hidp,
                        ids |-> Label(n), sc |-> [k \in 1..n |-> 0],
                        u |-> [i \in 1..n |-> RandomElement(Units)], dv |-> [i \in 1..n |-> RandG(2)], di |-> [i \in 1..n |-> RandG(2)], shunt |-> sh]
PickMatrix == \E n \in {RandInt(1, MaxN)}, lap \in {RandInt(0, 2) > 0}, dense \in {RandInt(0, 1) = 1} :
              \E w \in {Weights(n, dense)}, g \in {Unimod(n, 1)}, E \in {RandSet(2..n, 5)} :
              \E E1 \in {{x \in E : Cardinality({z \in E : z <= x}) <= 3}} :
              \E p \in {RandSeq(E1)}, q \in {RandSeq(1..n)} :
              LET y0 == IF lap THEN Laplacian(w, n) ELSE g
              IN cf' = [y |-> [i \in 1..n |-> [j \in 1..n |-> y0[q[i]][q[j]]]], lap |-> lap, sc |-> Scales(n),
                        es |-> [k \in 1..Len(p) |-> CHOOSE i \in 1..n : q[i] = p[k]]]
PickNet == \E n \in {RandInt(2, MaxN)}, dense \in {RandInt(0, 2) = 0} :
           \E w \in {Weights(n, dense)}, q \in {RandSeq(1..n)}, pcc \in {Pccs(n)}, lap \in {RandInt(0, 1) = 1} :
           \E pas \in {RandSet((1..n) \ pcc, 4)} :
           \E hid \in {RandSet((1..n) \ pcc, 3)} :
           \E hidp \in {IF ~lap /\ RandInt(0, 1) = 1 THEN hid \cup RandSet(pcc, 8) ELSE hid} :
              LET y0 == Laplacian(w, n) IN
              /\ Cardinality(hid \cup pas) <= 3 /\ Cardinality(hid \cup pas) < n - Cardinality(pcc)
              /\ cf' = [y |-> [i \in 1..n |-> [j \in 1..n |-> y0[q[i]][q[j]]]], pcc |-> pcc, lap |-> lap,
                        passive |-> pas, hidden |-> hidp, ids |-> Label(n), sc |-> Scales(n),
                        u |-> [i \in 1..n |-> RandomElement(Units)], dv |-> [i \in 1..n |-> RandG(2)], di |-> [i \in 1..n |-> RandG(2)],
                        shunt |-> [i \in 1..n |-> RandG(2)]]
PickPh == \E n \in {RandInt(2, MaxN)} : \E g \in {Draw([i \in 1..3 * n |-> [j \in 1..3 * n |-> RandG(1)]])}, pcc \in {Pccs(n)} :
          \E p \in {<<RandSet((1..n) \ pcc, 3), RandSet((1..n) \ pcc, 4), RandSet((1..n) \ pcc, 3)>>} :
          \E hid \in {IF RandInt(0, 2) > 0 THEN {} ELSE RandSet((1..n) \ pcc, 3)} :
          \E hidp \in {hid \cup RandSet(pcc, 3)} :
          \E c \in {[y |-> [i \in 1..3 * n |-> [j \in 1..3 * n |-> IF i = j THEN GAdd(g[i][i], <<3, 0>>) ELSE g[i][j]]], pcc |-> pcc, pas |-> p, hidden |-> hidp, ids |-> Label(n), sc |-> Scales(3 * n),
                     u |-> [a \in 1..3 * n |-> RandomElement(Units)], dv |-> [a \in 1..3 * n |-> RandG(2)], di |-> [a \in 1..3 * n |-> RandG(2)],
                     shunt |-> [a \in 1..3 * n |-> RandG(2)]]} :
             Cardinality(PhElim(c)) <= 4 /\ Cardinality(PhElim(c)) < 3 * n - 3 * Cardinality(pcc) /\ cf' = c
PickNode == \E n \in {RandInt(3, MaxN)} : \E w0 \in {Weights(n, TRUE)}, w1 \in {Weights(n, FALSE)}, w2 \in {Weights(n, TRUE)}, pcc \in {Pccs(n)} :
            \E both \in {RandSet((1..n) \ pcc, 5)} :
            \E p \in {<<both \cup RandSet((1..n) \ pcc, 2), both \cup RandSet((1..n) \ pcc, 3), both \cup RandSet((1..n) \ pcc, 2)>>} :
            \E hid \in {IF RandInt(0, 1) > 0 THEN {} ELSE RandSet((1..n) \ pcc, 3)} :
            \E hidp \in {hid \cup RandSet(pcc, 3)} :
            \E c \in {[ys |-> <<Laplacian(w0, n), Laplacian(w1, n), Laplacian(w2, n)>>, pcc |-> pcc, pas |-> p, hidden |-> hidp, ids |-> Label(n), sc |-> Scales(n),
                       u |-> [a \in 1..n |-> RandomElement(Units)], dv |-> [a \in 1..n |-> RandG(2)], di |-> [a \in 1..n |-> RandG(2)],
                       shunt |-> [a \in 1..n |-> RandG(2)]]} :
               Cardinality(hid \cup AllPas(c)) <= 3 /\ Cardinality(hid \cup AllPas(c)) < n - Cardinality(pcc) /\ cf' = c
Pick == cf = <<>> /\ UNCHANGED done
        /\ (CASE Big -> (CASE Mode = "matrix" -> BigMatrix [] Mode = "net" -> BigNet [] Mode = "phase" -> BigPh [] OTHER -> BigNode)
              [] Mode = "small" -> PickSmall [] Mode = "matrix" -> PickMatrix [] Mode = "net" -> PickNet
              [] Mode = "phase" -> PickPh [] OTHER -> PickNode)
\* (the order of elimination does not matter; in the given order of the nodes all pivots of the larger ones are one)
Sr == Schur(cf.y, IF Big THEN SetToSortedSeq({cf.es[k] : k \in 1..Len(cf.es)}) ELSE cf.es)
Ok == CASE Mode \in {"small", "matrix"} -> Sr.ok
        [] Mode = "net" -> Reduced(cf).ok
        [] Mode = "phase" -> PhReduced(cf).ok
        [] OTHER -> \A s \in 1..3 : SeqReduced(cf, s).ok
Fin == cf # <<>> /\ ~done /\ (IF Ok THEN TRUE ELSE FALSE) /\ done' = TRUE /\ UNCHANGED cf
Spec == Init /\ [][Pick \/ Fin]_vars

\* ------------------------------------------------------------------ theorems
ES == {cf.es[k] : k \in 1..Len(cf.es)}
InvOrderFree == done /\ Mode = "small" => \A p \in Perms(ES) : LET s == Schur(cf.y, p) IN s.ok /\ s.m = Sr.m /\ s.p = Sr.p
\* two groups one after the other, the second from the quotient of the first, by the defining formula
RatDiv(m, p) == LET mm == TLCEval(m) IN TLCEval([i \in 1..Len(mm) |-> [j \in 1..Len(mm) |-> CDiv(G2C(mm[i][j]), G2C(p))]])
Formula(Y, E) == LET r == SetToSortedSeq((1..NR(Y)) \ E) e == SetToSortedSeq(E)
                     blk(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b) |-> Y[a[i]][b[j]]]]
                 IN IF e = <<>> THEN Y ELSE CMsub(blk(r, r), CMM(blk(r, e), CSolve(blk(e, e), blk(e, r))))
InvDefinition == done /\ Mode = "small" => RatDiv(Sr.m, Sr.p) = Formula(ToC(cf.y), ES)
InvGrouping == done /\ Mode = "small" => \A E1 \in SUBSET ES :
    LET y1 == Formula(ToC(cf.y), E1) kept == (1..4) \ E1 IN Formula(y1, {Pos(kept, i) : i \in ES \ E1}) = Formula(ToC(cf.y), ES)
InvStructure == done /\ Mode \in {"small", "matrix"} /\ cf.lap =>
    \A i \in 1..Len(Sr.m) : GSum(Sr.m[i]) = G0 /\ \A j \in 1..Len(Sr.m) : Sr.m[i][j] = Sr.m[j][i]
\* reduction of a Laplacian without hidden nodes is a Laplacian; what is reported is what left, besides the PCC
InvReduced == done /\ Mode = "net" =>
    LET r == Reduced(cf) IN
    /\ Len(r.m) = Len(cf.y) - Cardinality(NetElim(cf)) - (IF cf.lap THEN 0 ELSE Cardinality(cf.pcc))
    /\ cf.lap /\ cf.hidden = {} => \A i \in 1..Len(r.m) : GSum(r.m[i]) = G0

\* what the reduced network is for: with any voltages (dv) at the nodes that stay, no current at the passive nodes and
\* currents in the ratio c.shunt to the voltages at the hidden ones, the network that remains carries the currents of
\* the whole network (voltages relative to those of the grid connection)
InvEquivalent == done /\ Mode = "net" /\ Cardinality(NetElim(cf)) <= 2 =>
    LET e == SetToSortedSeq(NetElim(cf)) r == SetToSortedSeq(NetLeft(cf))
        Y == ToC(cf.y) Z == ToC(Shunted(cf))
        blk(M, a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b) |-> M[a[i]][b[j]]]]
        vr == [i \in 1..Len(r) |-> <<G2C(cf.dv[r[i]])>>]
        ve == IF e = <<>> THEN <<>> ELSE TLCEval(CSolve(blk(Z, e, e), CMM(blk(Y, e, r), [i \in 1..Len(r) |-> <<CNeg(vr[i][1])>>])))
        cur(i) == CAdd(CMM(blk(Y, <<i>>, r), vr)[1][1], IF e = <<>> THEN G2C(G0) ELSE CMM(blk(Y, <<i>>, e), ve)[1][1])
        red == CMM(RatDiv(Reduced(cf).m, Reduced(cf).p), vr)
    IN /\ \A k \in 1..Len(e) : cur(e[k]) = IF e[k] \in cf.hidden THEN CMul(G2C(cf.shunt[e[k]]), ve[k][1]) ELSE G2C(G0)
       /\ \A k \in 1..Len(r) : cur(r[k]) = red[k][1]

\* larger eliminations are exact: every pivot is one
InvPivots == done /\ Big => CASE Mode = "matrix" -> Sr.p = <<1, 0>> [] Mode = "net" -> Reduced(cf).p = <<1, 0>>
                             [] Mode = "phase" -> PhReduced(cf).p = <<1, 0>> [] OTHER -> \A s \in 1..3 : SeqReduced(cf, s).p = <<1, 0>>

Num3(r) == [m |-> r.m, p |-> r.p]
EmitCase == done => Emit(
    CASE Mode \in {"small", "matrix"} -> [mode |-> "matrix", y |-> cf.y, es |-> cf.es, lap |-> cf.lap, sc |-> cf.sc, out |-> Num3(Sr)]
      [] Mode = "net" -> [mode |-> Mode, cf |-> cf, todel |-> SetToSortedSeq(Gone(cf)), left |-> SetToSortedSeq(NetLeft(cf)), out |-> Num3(Reduced(cf))]
      [] Mode = "phase" -> [mode |-> Mode, cf |-> cf, todel |-> SetToSortedSeq(PhPcc(cf) \cup PhElim(cf)),
                                left |-> SetToSortedSeq(PhKeep(cf) \ PhElim(cf)), out |-> Num3(PhReduced(cf))]
      [] OTHER -> [mode |-> Mode, cf |-> cf,
                   todel |-> SetToSortedSeq(PhPcc(cf) \cup {El(i, ph) : i \in cf.hidden \cup AllPas(cf), ph \in 1..3}),
                   left |-> SetToSortedSeq((1..Len(cf.ids)) \ (cf.pcc \cup cf.hidden \cup AllPas(cf))),
                   out |-> [s \in 1..3 |-> Num3(SeqReduced(cf, s))]])
=============================================================================
