------------------------------ MODULE Pipeline ------------------------------
(* C23. The two commands one after the other, without noise: simulate_network on the loads that correspond to given  *)
(* voltages (power flow by construction: I = V Y, loads -V conj(I)), then identify_network on what it saved. The     *)
(* reduced matrix and the unregularized estimates have to be the exact equivalent of the network without its passive *)
(* nodes, its hidden nodes (constant admittances) and, unless a Laplacian is wanted, the grid connection.            *)
(* Voltages are integers relative to Base, except at the eliminated nodes, where they are Ve / P (Gaussian integers).*)
EXTENDS Num, Elimination
CONSTANTS MaxN, MaxMore, Mode                            \* Mode "single" or "three" (sequences)
VARIABLES cf, done
vars == <<cf, done>>
Draw(e) == TLCEval(IF done THEN e ELSE e)
Base == 50
Ws == {<<1, -1>>, <<2, -1>>, <<2, -3>>, <<3, -2>>, <<0, -2>>, <<1, -3>>}
Gs == {<<1, 0>>, <<1, -1>>, <<0, -1>>, <<1, 1>>, <<2, -1>>}       \* admittances of the hidden loads, in units of 1 / Scale
RECURSIVE RandSeq(_)
RandSeq(S) == IF S = {} THEN <<>> ELSE CHOOSE s \in {<<x>> \o RandSeq(S \ {x}) : x \in {RandomElement(S)}} : TRUE
MkLines(n, par, more) == {<<par[j], j>> : j \in 2..n} \cup {p \in more : p[1] < p[2]}
LapOf(n, E, w) == [i \in 1..n |-> [j \in 1..n |->
    IF i = j THEN GSum([k \in 1..n |-> IF <<i, k>> \in E THEN w[i][k] ELSE IF <<k, i>> \in E THEN w[k][i] ELSE G0])
    ELSE IF <<i, j>> \in E THEN GNeg(w[i][j]) ELSE IF <<j, i>> \in E THEN GNeg(w[j][i]) ELSE G0]]
Dev(b) == <<RandInt(-b, b), RandInt(-b, b)>>
Far == {<<2, 0>>, <<-2, 0>>, <<0, 2>>, <<0, -2>>, <<2, 1>>, <<-1, 2>>}
NSeq == IF Mode = "single" THEN 1 ELSE 3
Label(n) == RandomElement({[k \in 1..n |-> k], [k \in 1..n |-> k + 3], [k \in 1..n |-> ((3 * k) % 11) + 1], [k \in 1..n |-> 2 * (n - k) + 1]})
\* deviations of m series: the first m steps are triangular, the next one is the reference, any number of others follow
Devs(m, more) == [t \in 1..m + 1 + more |-> [k \in 1..m |->
    IF t <= m THEN (IF k = t THEN RandomElement(Far) ELSE IF k < t /\ RandInt(0, 2) = 0 THEN Dev(1) ELSE G0)
    ELSE IF t = m + 1 THEN G0 ELSE Dev(2)]]
Init == cf = <<>> /\ done = FALSE
Pick == /\ cf = <<>> /\ UNCHANGED done
        /\ \E n \in {RandInt(3, MaxN)}, more \in {RandInt(2, MaxMore)}, lap \in {Mode = "single" /\ RandInt(0, 3) = 0} :
           \E par \in {Draw([j \in 1..n |-> IF j = 1 THEN 0 ELSE RandInt(1, j - 1)])}, pcc \in {RandInt(1, n)}, q \in {RandSeq(1..n)} :
           \E ext \in {Draw({p \in (2..n) \X (1..n) : RandInt(0, 6) = 0})} :
           \E w \in {Draw([s \in 1..2 |-> [i \in 1..n |-> [j \in 1..n |-> RandomElement(Ws)]]])} :
           \E el0 \in {RandSeq((1..n) \ {pcc})}, ne \in {RandInt(0, IF n > 5 THEN 3 ELSE n - 3)} :
           \E elim \in {{el0[k] : k \in 1..ne}} :
           \E hid \in {IF lap \/ ne > 2 THEN {} ELSE Draw({i \in elim : RandInt(0, 2) > 0})} :
           \E g \in {Draw([i \in 1..n |-> RandomElement(Gs)])} :
           LET ms == n - ne - 1 IN
           \E dv \in {Draw([s \in 1..NSeq |-> Devs(ms, more)])}, fpts \in {RandomElement({1, 2, 6, 30})} :
           \E fp \in {RandomElement({1, fpts})}, order \in {RandSeq(1..ms + 1 + more)} :
           LET E == TLCEval(MkLines(n, par, {p \in ext : p[1] # p[2]}))
               pos(i) == CHOOSE k \in 1..n : q[k] = i
               y(s) == LET l == TLCEval(LapOf(n, E, w[IF s = 1 THEN 1 ELSE 2])) IN TLCEval([i \in 1..n |-> [j \in 1..n |-> l[q[i]][q[j]]]])
           IN cf' = [y |-> [s \in 1..NSeq |-> y(s)], pcc |-> pos(pcc), elim |-> {pos(i) : i \in elim}, hidden |-> {pos(i) : i \in hid}, g |-> g,
                     lap |-> lap, dv |-> dv, order |-> order, ids |-> Label(n), nominal |-> [i \in 1..n |-> RandInt(1, 3)],
                     fpts |-> fpts, fp |-> fp, equiv |-> RandInt(0, 3) = 0, unloaded |-> Draw({i \in 1..n : RandInt(0, 1) = 0}),
                     its |-> RandomElement({0, 0, 1}), inseq |-> RandInt(0, 3) > 0]
Fin == cf # <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED cf
Spec == Init /\ [][Pick \/ Fin]_vars
\* ------------------------------------------------------------------ meaning
N == Len(cf.ids)
Steps == Len(cf.dv[1])
Scale == IF cf.hidden = {} THEN 1 ELSE 5
El == SetToSortedSeq(cf.elim)
Kept == SetToSortedSeq((1..N) \ (cf.elim \cup {cf.pcc}))
Out == IF cf.lap THEN SetToSortedSeq((1..N) \ cf.elim) ELSE Kept
PosIn(s, i) == CHOOSE k \in 1..Len(s) : s[k] = i
Nominal(s) == IF Mode = "three" /\ s # 2 THEN G0 ELSE <<Base, 0>>
\* voltages of all nodes that are not eliminated
Vk(s, t, i) == IF i = cf.pcc THEN Nominal(s) ELSE GAdd(Nominal(s), cf.dv[s][t][PosIn(Kept, i)])
Rest == SetToSortedSeq((1..N) \ cf.elim)
\* Scale times the network with the hidden loads
Z(s) == TLCEval([i \in 1..N |-> [j \in 1..N |-> LET a == GMul(<<Scale, 0>>, cf.y[s][i][j]) IN IF i = j /\ i \in cf.hidden THEN GAdd(a, cf.g[i]) ELSE a]])
Elim1(s, S) == Schur([a \in 1..Len(S) |-> [b \in 1..Len(S) |-> Z(s)[S[a]][S[b]]]], [k \in 1..Len(El) |-> PosIn(S, El[k])])
\* the reduced network, Scale times M / P
Red(s) == Elim1(s, SetToSortedSeq({Out[k] : k \in 1..Len(Out)} \cup cf.elim))
\* voltage of the eliminated node e: bordering the eliminated block with its inflow and the unit row of e
Ve(s, t, e) ==
    LET m == Len(El) z == Z(s)
        r == TLCEval([k \in 1..m |-> GSum([j \in 1..Len(Rest) |-> GMul(z[El[k]][Rest[j]], Vk(s, t, Rest[j]))])])
        bord == [a \in 1..m + 1 |-> [b \in 1..m + 1 |-> IF a <= m /\ b <= m THEN z[El[a]][El[b]]
                   ELSE IF a <= m THEN r[a] ELSE IF b <= m /\ El[b] = e THEN <<1, 0>> ELSE G0]]
    IN Schur(bord, [k \in 1..m |-> k])
Volts(s) == TLCEval([t \in 1..Steps |-> [i \in 1..N |-> IF i \in cf.elim THEN LET x == TLCEval(Ve(s, t, i)) IN [n |-> x.m[1][1], p |-> x.p] ELSE [n |-> Vk(s, t, i), p |-> <<1, 0>>]]])
\* ------------------------------------------------------------------ theorems
\* (all currents are P times the actual ones)
Pv(s) == Red(s).p
Scaled(s, v, t, i) == IF i \in cf.elim THEN v[t][i].n ELSE GMul(Pv(s), v[t][i].n)
CurP(s, v, t, i) == GSum([j \in 1..N |-> GMul(cf.y[s][i][j], Scaled(s, v, t, j))])
\* passive nodes draw nothing, hidden ones what their admittance draws
InvNodes == done => \A s \in 1..NSeq : LET v == Volts(s) IN \A t \in 1..Steps : \A i \in cf.elim :
    /\ v[t][i].p = Pv(s)
    /\ GMul(<<Scale, 0>>, CurP(s, v, t, i)) = IF i \in cf.hidden THEN GNeg(GMul(cf.g[i], v[t][i].n)) ELSE G0
\* changes of the remaining currents are the reduced network times the changes of the remaining voltages (for a
\* Laplacian without hidden nodes, currents are the reduced network times the voltages, whatever their common offset)
InvReduced == done => \A s \in 1..NSeq : LET v == Volts(s) r == TLCEval(Red(s)) ref == Steps IN \A t \in 1..Steps : \A a \in 1..Len(Out) :
    GMul(<<Scale, 0>>, GSub(CurP(s, v, t, Out[a]), CurP(s, v, ref, Out[a])))
      = GSum([b \in 1..Len(Out) |-> GMul(r.m[a][b], GSub(Vk(s, t, Out[b]), Vk(s, ref, Out[b])))])
InvLaplacian == done /\ cf.lap => LET v == Volts(1) r == TLCEval(Red(1)) IN
    /\ \A a \in 1..Len(Out) : GSum(r.m[a]) = G0
    /\ \A t \in 1..Steps, a \in 1..Len(Out) : CurP(1, v, t, Out[a]) = GSum([b \in 1..Len(Out) |-> GMul(r.m[a][b], Vk(1, t, Out[b]))])
\* enough information: relative to the reference step, the first steps are triangular
InvIdentifiable == done => \A s \in 1..NSeq : LET m == Len(Kept) IN
    /\ \A k \in 1..m : cf.dv[s][k][k] # G0 /\ \A j \in k + 1..m : cf.dv[s][k][j] = G0
    /\ \A k \in 1..m : cf.dv[s][m + 1][k] = G0
EmitCase == done => Emit([mode |-> Mode, cf |-> [x \in DOMAIN cf \ {"dv"} |-> cf[x]], base |-> Base, scale |-> Scale,
                          v |-> [s \in 1..NSeq |-> LET v == Volts(s) IN [t \in 1..Steps |-> v[cf.order[t]]]], kept |-> Out,
                          out |-> [s \in 1..NSeq |-> LET r == Red(s) IN [m |-> r.m, p |-> r.p]]])
=============================================================================
