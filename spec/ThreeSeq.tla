------------------------------ MODULE ThreeSeq ------------------------------
(* C16. Identification of all three sequences, as a machine that identifies one sequence after the other from its     *)
(* own columns and writes its own block. The data follows exactly a (random) admittance per sequence, so the         *)
(* least squares estimates are known exactly; the other methods are compared with the single identification.        *)
EXTENDS Layout
CONSTANTS MaxN, Big
VARIABLES c,      \* case: ids of the columns, admittance per sequence, voltages, currents, options
          cur,    \* sequence to identify next (0..3)
          est,    \* estimate assembled so far
          done
vars == <<c, cur, est, done>>
\* a random value, drawn anew each time (TLC keeps the value of constant expressions)
Draw(e) == TLCEval(IF done THEN e ELSE e)
\* columns (1-based) of a sequence, in order
Cols(ids, s) == SelectSeq([k \in 1..Len(ids) |-> k], LAMBDA k : ids[k] = s)
Pick(M, cols) == [t \in 1..Len(M) |-> [j \in 1..Len(cols) |-> M[t][cols[j]]]]
\* position of a column among those of its sequence
Rank(ids, k) == Cardinality({h \in 1..k : ids[h] = ids[k]})
RandG(b) == <<RandInt(-b, b), RandInt(-b, b)>>
\* a random order of n0 zeros, n1 ones and n2 twos
RECURSIVE Shuffle(_)
Shuffle(s) == IF s = <<>> THEN <<>> ELSE LET k == Draw(RandInt(1, Len(s))) IN
              CHOOSE r \in {<<s[x]>> \o Shuffle(SubSeq(s, 1, x - 1) \o SubSeq(s, x + 1, Len(s))) : x \in {k}} : TRUE
Rep(n, x) == [i \in 1..n |-> x]
Zeros(n) == [i \in 1..n |-> [j \in 1..n |-> <<0, 0>>]]
Init == c = <<>> /\ cur = 0 /\ est = <<>> /\ done = FALSE
Make ==
    /\ c = <<>>
    /\ \E n \in {Draw([s \in 1..3 |-> IF Big THEN 29 ELSE RandInt(1, MaxN)])}, mixed \in {Draw(RandInt(0, 3) > 0)} :
       \E ids \in {Draw(IF mixed THEN Shuffle(Rep(n[1], 0) \o Rep(n[2], 1) \o Rep(n[3], 2)) ELSE Rep(n[1], 0) \o Rep(n[2], 1) \o Rep(n[3], 2))},
          Y \in {Draw([s \in 1..3 |-> LET r == [i \in 1..n[s] |-> [j \in 1..n[s] |-> IF i = j THEN <<RandInt(1, 5), RandInt(1, 5)>> ELSE <<-RandInt(1, 3), RandInt(1, 3)>>]]
                                         IN TLCEval(r)])} :
       \E T \in {IF Big THEN 4 ELSE 2 * Len(ids) + 2} :
       \E V \in {Draw([t \in 1..T |-> [j \in 1..Len(ids) |-> RandG(4)]])}, off \in {Draw([j \in 1..Len(ids) |-> RandG(3)])},
          noise \in {Draw([t \in 1..T |-> [j \in 1..Len(ids) |-> RandG(2)]])} :
         LET I == TLCEval([t \in 1..T |-> [j \in 1..Len(ids) |-> LET cs == Cols(ids, ids[j]) IN
                     GAdd(off[j], GSum([k \in 1..Len(cs) |-> GMul(V[t][cs[k]], Y[ids[j] + 1][k][Rank(ids, j)])]))]]) IN
         c' = [ids |-> ids, n |-> n, Y |-> Y, V |-> V, I |-> I, noise |-> noise,
               lap |-> ~Big /\ (\A s \in 1..3 : n[s] > 1) /\ RandInt(0, 1) = 1, exact |-> Big,
               lasso |-> RandomElement({0, 1, 2, 3, 15}), its |-> RandomElement(IF Big THEN {1} ELSE (1..6) \cup {14}),
               weighted |-> RandInt(0, 1) = 1, sync |-> RandInt(0, 2) > 0,
               abs |-> RandomElement({Q0, <<1, 100>>, <<1, 10>>}), rel |-> RandomElement({Q0, <<1, 5>>, <<1, 2>>}),
               lam |-> RandomElement({<<1, 10>>, <<1, 1>>}), pmu |-> [j \in 1..Len(ids) |-> RandInt(1, 4)],
               init |-> [i \in 1..Len(ids) |-> [j \in 1..Len(ids) |-> IF i = j THEN <<RandInt(1, 5), RandInt(1, 5)>>
                                                                    ELSE <<-RandInt(1, 4), RandInt(1, 4)>>]]]
    /\ cur' = 0 /\ est' = <<>> /\ UNCHANGED done
\* one sequence: its block, from its own columns, and nothing else, is written
Identify ==
    /\ c # <<>> /\ cur < 3 /\ cur' = cur + 1 /\ UNCHANGED <<c, done>>
    /\ LET old == IF est = <<>> THEN Zeros(Len(c.ids)) ELSE est IN
       est' = [i \in 1..Len(c.ids) |-> [j \in 1..Len(c.ids) |->
                 IF c.ids[i] = cur /\ c.ids[j] = cur THEN c.Y[cur + 1][Rank(c.ids, i)][Rank(c.ids, j)] ELSE old[i][j]]]
Fin == c # <<>> /\ cur = 3 /\ ~done /\ done' = TRUE /\ UNCHANGED <<c, cur, est>>
Spec == Init /\ [][Make \/ Identify \/ Fin]_vars
\* ------------------------------------------------------------------ theorems
InvPartition == c # <<>> => \A k \in 1..Len(c.ids) : Cols(c.ids, c.ids[k])[Rank(c.ids, k)] = k
InvCount == c # <<>> => \A s \in 0..2 : Len(Cols(c.ids, s)) = c.n[s + 1]
\* no coupling, own blocks, in the end
InvBlocks == done => /\ \A i, j \in 1..Len(c.ids) : c.ids[i] # c.ids[j] => est[i][j] = <<0, 0>>
                     /\ \A s \in 0..2 : LET cs == Cols(c.ids, s) IN
                          [i \in 1..Len(cs) |-> [j \in 1..Len(cs) |-> est[cs[i]][cs[j]]]] = c.Y[s + 1]
\* the assembled matrix explains the currents up to the offsets: V est - I is constant in time
InvExplains == done => LET R == GMM(c.V, est) IN
    \A t \in 1..Len(c.V), j \in 1..Len(c.ids) : GSub(R[t][j], c.I[t][j]) = GSub(R[1][j], c.I[1][j])
EmitCase == done => Emit(c @@ [est |-> est, cols |-> [s \in 1..3 |-> [k \in 1..c.n[s] |-> Cols(c.ids, s - 1)[k] - 1]]])
=============================================================================
