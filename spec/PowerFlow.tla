------------------------------ MODULE PowerFlow ------------------------------
(* C20. Power flow by construction: the specification picks a connected network and, for every step, the voltages   *)
(* (in hundredths, the grid connection at nominal), from which currents I = V Y and loads -V conj(I) follow         *)
(* exactly; simulating the network with these loads has to give back these voltages and currents, step by step and  *)
(* node by node. Three-phase networks do the same for each sequence.                                                *)
EXTENDS Num
CONSTANTS MaxN, MaxT, Mode      \* Mode "single", "balanced" or "unbalanced"
VARIABLES cf, done
vars == <<cf, done>>
\* a random value, drawn anew each time (TLC keeps the value of constant expressions)
Draw(e) == TLCEval(IF done THEN e ELSE e)
G0 == <<0, 0>>
Ws == {<<1, -1>>, <<2, -1>>, <<2, -3>>, <<3, -2>>, <<0, -2>>, <<1, -3>>}      \* no purely resistive lines
RandW(k) == RandomElement(Ws)
RECURSIVE RandSeq(_)
RandSeq(S) == IF S = {} THEN <<>> ELSE CHOOSE s \in {<<x>> \o RandSeq(S \ {x}) : x \in {RandomElement(S)}} : TRUE
\* lines: a tree (par) and further ones (more); nodes hanging on one line may have no load at all (gen)
MkLines(n, par, more) == {<<par[j], j>> : j \in 2..n} \cup {p \in more : p[1] < p[2]}
LapOf(n, E, w) == [i \in 1..n |-> [j \in 1..n |->
    IF i = j THEN GSum([k \in 1..n |-> IF <<i, k>> \in E THEN w[i][k] ELSE IF <<k, i>> \in E THEN w[k][i] ELSE G0])
    ELSE IF <<i, j>> \in E THEN GNeg(w[i][j]) ELSE IF <<j, i>> \in E THEN GNeg(w[j][i]) ELSE G0]]
Dev(b) == <<RandInt(-b, b), RandInt(-b, b)>>
Volt(n, pcc, b, base) == Draw([i \in 1..n |-> IF i = pcc THEN base ELSE GAdd(base, Dev(b))])
Label(n) == RandomElement({[k \in 1..n |-> k], [k \in 1..n |-> k + 3], [k \in 1..n |-> IF n <= 10 THEN ((3 * k) % 11) + 1 ELSE ((7 * k) % 43) + 1], [k \in 1..n |-> 2 * (n - k) + 1]})
\* nodes without load take the voltage of the node they hang on, because they draw no current
Hang(v, gen, par) == [i \in 1..Len(v) |-> IF i \in gen THEN v[par[i]] ELSE v[i]]
Perm2(m, q) == [i \in 1..Len(q) |-> [j \in 1..Len(q) |-> m[q[i]][q[j]]]]
Perm1(v, q) == [i \in 1..Len(q) |-> v[q[i]]]
NSeq == IF Mode = "single" THEN 1 ELSE 3
\* sequences: zero, positive, negative; a single-phase network only has the positive one
Bound(s) == IF Mode = "single" \/ s = 2 THEN 4 ELSE IF Mode = "balanced" THEN 0 ELSE 2
Base(s) == IF Mode = "single" \/ s = 2 THEN <<100, 0>> ELSE G0
Init == cf = <<>> /\ done = FALSE
Pick == /\ cf = <<>> /\ UNCHANGED done
        /\ \E n \in {RandInt(2, MaxN)}, T \in {RandInt(1, MaxT)} :
           \E par \in {Draw([j \in 1..n |-> IF j = 1 THEN 0 ELSE RandInt(1, j - 1)])} :
           \E gen \in {Draw({j \in 2..n : (\A k \in 2..n : par[k] # j) /\ par[j] > 0 /\ RandInt(0, 4) = 0})} :
           \E more \in {Draw({p \in ((2..n) \ gen) \X ((1..n) \ gen) : RandInt(0, 5) = 0})} :
           \E w \in {Draw([s \in 1..2 |-> [i \in 1..n |-> [j \in 1..n |-> RandW(0)]]])}, q \in {RandSeq(1..n)}, pcc0 \in {RandomElement((1..n) \ gen)} :
           \* steps without any load
           \E idle \in {Draw(IF RandInt(0, 7) = 0 THEN 1..T ELSE {t \in 1..T : RandInt(0, 7) = 0})} :
           \E vs \in {Draw([s \in 1..NSeq |-> [t \in 1..T |-> Hang(Volt(n, pcc0, IF t \in idle THEN 0 ELSE Bound(s), Base(s)), gen, par)]])} :
           LET E == TLCEval(MkLines(n, par, more))
               ys == [s \in 1..NSeq |-> Perm2(LapOf(n, E, w[IF s = 1 THEN 1 ELSE 2]), q)]
               pcc == CHOOSE i \in 1..n : q[i] = pcc0
           IN cf' = [y |-> ys, v |-> [s \in 1..NSeq |-> [t \in 1..T |-> Perm1(vs[s][t], q)]], pcc |-> pcc,
                     gen |-> {i \in 1..n : q[i] \in gen}, ids |-> Label(n), sym |-> Draw({i \in 1..n : RandInt(0, 1) = 1}),
                     nominal |-> [i \in 1..n |-> RandInt(0, 3)]]
Fin == cf # <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED cf
Spec == Init /\ [][Pick \/ Fin]_vars
N == Len(cf.ids)
T0 == Len(cf.v[1])
Cur(s) == GMM(cf.v[s], cf.y[s])                      \* hundredths
\* apparent power drawn at node i (single phase; 1e-4)
Drawn(t, i) == GNeg(GMul(cf.v[1][t][i], GConj(Cur(1)[t][i])))
\* theorems: currents balance; a single-phase network draws minus its losses in total; nodes without load draw nothing
InvKirchhoff == done => \A s \in 1..NSeq, t \in 1..T0 : GSum(Cur(s)[t]) = G0
InvLosses == done /\ Mode = "single" => \A t \in 1..T0 :
    LET loss == SumSeq(FlattenSeq([i \in 1..N |-> [j \in 1..N |-> IF i < j THEN LET d == GSub(cf.v[1][t][i], cf.v[1][t][j])
                       IN (d[1] * d[1] + d[2] * d[2]) * (-cf.y[1][i][j][1]) ELSE 0]]))
    IN loss >= 0 /\ GSum([i \in 1..N |-> Drawn(t, i)])[1] = -loss
InvIdle == done => \A s \in 1..NSeq, t \in 1..T0, i \in cf.gen : Cur(s)[t][i] = G0
EmitCase == done => Emit([mode |-> Mode, cf |-> cf, i |-> [s \in 1..NSeq |-> Cur(s)],
                          s |-> IF Mode = "single" THEN [t \in 1..T0 |-> [k \in 1..N |-> Drawn(t, k)]] ELSE <<>>])
=============================================================================
