------------------------------ MODULE Network ------------------------------
(* C13. Networks edited by adding and removing buses and lines. The state is the list of buses in order of creation *)
(* and the bag of lines; histories of edits are generated at random and replayed on the real network classes, which *)
(* have to show the same buses, lines, passive nodes and, whenever the network is connected to its grid, the same   *)
(* admittance matrix after every edit.                                                                              *)
EXTENDS Num
CONSTANTS MaxB, MaxL, Len0, Three, Grow, Areas      \* Areas: how many separate areas (of different voltage) a network may have
VARIABLES buses,   \* sequence of [id, kind, p, q, g]   (kind 1 load, 2 generator, 3 grid; p, q: one flag per phase; g: area)
          lines,   \* sequence of [h, f, t, w]       (h: handle, f and t: bus ids in the order given, w: admittances per sequence)
          nexth, hist, done
vars == <<buses, lines, nexth, hist, done>>
\* a random value, drawn anew each time (TLC keeps the value of constant expressions)
Draw(e) == TLCEval(IF done THEN e ELSE e)
Ids == 1..30
G0 == <<0, 0>>
Ws == {<<1, 0>>, <<2, 0>>, <<1, -1>>, <<2, -1>>, <<0, -1>>, <<1, -3>>}
BusIds == {buses[k].id : k \in 1..Len(buses)}
Kind(i) == (CHOOSE k \in 1..Len(buses) : buses[k].id = i)
GrpOf(i) == buses[Kind(i)].g
HasGrid(g) == \E k \in 1..Len(buses) : buses[k].kind = 3 /\ buses[k].g = g
\* areas without a connection to the grid
Dark == {g \in 1..Areas : ~HasGrid(g) /\ \E k \in 1..Len(buses) : buses[k].g = g}
Adj(ls) == {{ls[k].f, ls[k].t} : k \in 1..Len(ls)}
RECURSIVE Reach(_, _)
Reach(S, e) == LET T == S \cup UNION {x \in e : x \cap S # {}} IN IF T = S THEN S ELSE Reach(T, e)
\* every area is one piece and has a connection to the grid
Firsts(bs) == {bs[k].id : k \in {k \in 1..Len(bs) : \A m \in 1..(k - 1) : bs[m].g # bs[k].g}}
Connected(bs, ls) == /\ Len(bs) > 1
                     /\ \A k \in 1..Len(bs) : \E m \in 1..Len(bs) : bs[m].kind = 3 /\ bs[m].g = bs[k].g
                     /\ Reach(Firsts(bs), Adj(ls)) = {bs[k].id : k \in 1..Len(bs)}
NSeq == IF Three THEN 2 ELSE 1
\* admittance matrix of sequence s, ordered like the buses
Ybus(bs, ls, s) == [a \in 1..Len(bs) |-> [b \in 1..Len(bs) |->
    LET i == bs[a].id j == bs[b].id
        mine == SelectSeq(ls, LAMBDA l : IF a = b THEN i \in {l.f, l.t} ELSE {l.f, l.t} = {i, j})
        sum == CSum([k \in 1..Len(mine) |-> CScale(<<1, mine[k].len>>, G2C(mine[k].w[s]))])
    IN IF a = b THEN sum ELSE CNeg(sum)]]
\* nodes without load, per phase, in the order of the buses
PassivePh(bs, ph) == LET s == SelectSeq(bs, LAMBDA b : b.kind # 3 /\ (b.kind = 2 \/ (b.p[ph] = 0 /\ b.q[ph] = 0))) IN [k \in 1..Len(s) |-> s[k].id]
Snapshot(bs, ls) == [ids |-> [k \in 1..Len(bs) |-> bs[k].id], nl |-> Len(ls),
                     passive |-> [ph \in 1..3 |-> PassivePh(bs, ph)],
                     pcc |-> LET s == SelectSeq(bs, LAMBDA b : b.kind = 3) IN [k \in 1..Len(s) |-> s[k].id],
                     conn |-> Connected(bs, ls)]

Init == buses = <<>> /\ lines = <<>> /\ nexth = 1 /\ hist = <<>> /\ done = FALSE
Log(e, bs, ls) == hist' = Append(hist, [e |-> e, after |-> Snapshot(bs, ls)])
Fresh(n) == CHOOSE s \in {[k \in 1..n |-> CHOOSE x \in {RandomElement(Ids \ BusIds)} : TRUE]} : TRUE
RandKind(pcc) == IF pcc THEN 3 ELSE IF RandInt(0, 5) = 0 THEN 2 ELSE 1
RandLoads(z) == LET a == RandInt(0, 1) IN Draw(IF Three /\ RandInt(0, 2) > 0 THEN <<RandInt(0, 1), RandInt(0, 1), RandInt(0, 1)>> ELSE <<a, a, a>>)
\* buses are created one by one or in groups
AddBuses == \E n \in {RandInt(1, IF buses = <<>> THEN 4 ELSE 2)}, one \in {RandInt(0, 1) = 1} : \E ids \in {Fresh(n)} :
            \E g \in {IF Dark # {} THEN RandomElement(Dark) ELSE Draw(RandInt(1, Areas))} :
            \E kinds \in {[k \in 1..n |-> RandKind((~HasGrid(g) \/ (Areas > 1 /\ RandInt(0, 7) = 0)) /\ k = n)]} :
            \E new \in {Draw([k \in 1..n |-> LET z == RandInt(0, 1) IN [id |-> ids[k], g |-> g, kind |-> kinds[k], p |-> RandLoads(0), q |-> RandLoads(1)]])} :
            /\ Cardinality({ids[k] : k \in 1..n}) = n /\ Len(buses) + n <= MaxB
            /\ buses' = buses \o new /\ UNCHANGED <<lines, nexth>>
            /\ Log([op |-> IF n = 1 /\ one THEN "create_bus" ELSE "create_buses", new |-> new], buses \o new, lines)
\* a further load at a bus which is not the grid connection: a bus is passive in a phase when all of its loads are zero there
AddLoad == \E i \in {RandomElement(BusIds)} : \E p \in {RandLoads(0)}, q \in {RandLoads(1)} :
           LET k == Kind(i) Or(a, b) == [ph \in 1..3 |-> IF a[ph] = 1 \/ b[ph] = 1 THEN 1 ELSE 0]
               Had(f) == IF buses[k].kind = 2 THEN <<0, 0, 0>> ELSE f
               bs == [buses EXCEPT ![k] = [@ EXCEPT !.p = Or(p, Had(buses[k].p)), !.q = Or(q, Had(buses[k].q)), !.kind = 1]]
           IN /\ buses[k].kind # 3 /\ buses' = bs /\ UNCHANGED <<lines, nexth>>
              /\ Log([op |-> "add_load", id |-> i, p |-> p, q |-> q], bs, lines)
RandLine(h) == CHOOSE l \in {[h |-> h, f |-> f, t |-> t, w |-> ws, len |-> n, on |-> on] :
                               f \in {RandomElement(BusIds)}, t \in {RandomElement(BusIds)},
                               ws \in {IF Three THEN <<RandomElement(Ws), RandomElement(Ws)>> ELSE <<RandomElement(Ws)>>},
                               n \in {IF Three THEN RandInt(1, 3) ELSE 1}, on \in {RandInt(0, 4) > 0}} : TRUE
AddLines == /\ Len(buses) > 1
            /\ \E n \in {RandInt(1, 4)}, one \in {RandInt(0, 1) = 1} : \E new \in {Draw([k \in 1..n |-> RandLine(nexth + k - 1)])} :
               LET oks == SelectSeq(new, LAMBDA l : l.on \/ (n = 1 /\ one)) IN
               /\ \A k \in 1..n : new[k].f # new[k].t /\ GrpOf(new[k].f) = GrpOf(new[k].t)
               /\ \A a, b \in 1..n : a # b => {new[a].f, new[a].t} # {new[b].f, new[b].t}
               /\ Len(lines) + n <= MaxL
               /\ lines' = lines \o oks /\ nexth' = nexth + n /\ UNCHANGED buses
               /\ Log([op |-> IF n = 1 /\ one THEN "create_line" ELSE "create_lines", new |-> new], buses, lines \o oks)
\* a line to a bus that is not reached yet
JoinLine == LET R == Reach(Firsts(buses), Adj(lines)) IN
            /\ BusIds # R /\ Len(lines) < MaxL
            /\ \E l0 \in {RandLine(nexth)}, a \in {RandomElement(R)}, b \in {RandomElement(BusIds \ R)}, turn \in {RandInt(0, 1) = 1}, one \in {RandInt(0, 1) = 1} :
               /\ GrpOf(a) = GrpOf(b)
               /\ LET l == [l0 EXCEPT !.f = IF turn THEN b ELSE a, !.t = IF turn THEN a ELSE b, !.on = TRUE] IN
                  /\ lines' = Append(lines, l) /\ nexth' = nexth + 1 /\ UNCHANGED buses
                  /\ Log([op |-> IF one THEN "create_line" ELSE "create_lines", new |-> <<l>>], buses, Append(lines, l))
\* lines making up an admittance matrix (Laplacian) over the present buses
FromYbus == /\ ~Three /\ Len(buses) > 1
            /\ \E m \in {Draw([a \in 1..Len(buses) |-> [b \in 1..Len(buses) |-> IF RandInt(0, 1) = 0 \/ buses[a].g # buses[b].g THEN G0 ELSE RandomElement(Ws)]])} :
               LET n == Len(buses)
                   prs == FlattenSeq([a \in 1..n |-> SelectSeq([b \in 1..(a - 1) |-> <<a, b>>], LAMBDA p : m[p[1]][p[2]] # G0)])
                   new == [k \in 1..Len(prs) |-> [h |-> nexth + k - 1, f |-> buses[prs[k][1]].id, t |-> buses[prs[k][2]].id,
                                                  w |-> <<m[prs[k][1]][prs[k][2]]>>, len |-> 1, on |-> TRUE]]
                   y == [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN GSum([k \in 1..n |-> IF k < a THEN m[a][k] ELSE IF k > a THEN m[k][a] ELSE G0])
                                                        ELSE IF a > b THEN GNeg(m[a][b]) ELSE GNeg(m[b][a])]]
               IN /\ Len(lines) + Len(new) <= MaxL /\ new # <<>>
                  /\ lines' = lines \o new /\ nexth' = nexth + Len(new) /\ UNCHANGED buses
                  /\ Log([op |-> "create_lines_from_ybus", y |-> y, new |-> new], buses, lines \o new)
RemoveLines == /\ lines # <<>>
               /\ \E one \in {RandInt(0, 1) = 1} :
                  \E S \in {IF one \/ Len(lines) = 1 THEN {RandInt(1, Len(lines))} ELSE {RandInt(1, Len(lines)), RandInt(1, Len(lines))}} :
                  LET left == SelectSeq([k \in 1..Len(lines) |-> [k |-> k, l |-> lines[k]]], LAMBDA e : e.k \notin S)
                      ls == [k \in 1..Len(left) |-> left[k].l]
                  IN /\ lines' = ls /\ UNCHANGED <<buses, nexth>>
                     /\ Log([op |-> IF one THEN "remove_line" ELSE "remove_lines", hs |-> LET s == SetToSortedSeq(S) IN [k \in 1..Len(s) |-> lines[s[k]].h]], buses, ls)
RemoveBuses == /\ Len(buses) > 2
               /\ \E one \in {RandInt(0, 1) = 1} :
                  \E S \in {IF one THEN {RandomElement(BusIds)} ELSE {RandomElement(BusIds), RandomElement(BusIds)}} :
                  LET bs == SelectSeq(buses, LAMBDA b : b.id \notin S)
                      ls == SelectSeq(lines, LAMBDA l : {l.f, l.t} \cap S = {})
                  IN /\ buses' = bs /\ lines' = ls /\ UNCHANGED nexth
                     /\ Log([op |-> IF one THEN "remove_bus" ELSE "remove_buses", ids |-> SetToSortedSeq(S)], bs, ls)
Observe == /\ Connected(buses, lines) /\ hist[Len(hist)].e.op # "ybus"
           /\ UNCHANGED <<buses, lines, nexth>>
           /\ Log([op |-> "ybus", y |-> [s \in 1..NSeq |-> Ybus(buses, lines, s)]], buses, lines)
Edit == /\ ~done /\ Len(hist) < Len0 /\ UNCHANGED done
        /\ \E k \in {RandInt(1, 13)} :
           IF Len(buses) < 2 \/ Dark # {} THEN AddBuses
           \* growing networks get all their buses and are connected first, and again whenever they fall apart
           ELSE IF Grow /\ Len(hist) < Len0 \div 3 /\ Len(buses) < MaxB - 2 THEN AddBuses
           ELSE IF Grow /\ k <= 9 /\ ~Connected(buses, lines) THEN JoinLine
           ELSE IF Len(lines) < Len(buses) - 1 THEN AddLines
           ELSE CASE k <= 2 -> AddBuses [] k <= 4 -> AddLines [] k = 5 -> IF Three THEN AddLines ELSE FromYbus
                  [] k <= 8 -> RemoveLines [] k = 9 -> RemoveBuses [] k = 10 -> AddLoad [] OTHER -> Observe
Fin == /\ ~done /\ Len(hist) = Len0 /\ done' = TRUE /\ UNCHANGED <<buses, lines, nexth, hist>>
Retry == ~done /\ UNCHANGED vars      \* random edits that are not possible are drawn again
Spec == Init /\ [][Edit \/ Retry \/ Fin]_vars

\* ------------------------------------------------------------------ theorems
InvIds == \A a, b \in 1..Len(buses) : a # b => buses[a].id # buses[b].id
InvLines == \A k \in 1..Len(lines) : {lines[k].f, lines[k].t} \subseteq BusIds /\ lines[k].f # lines[k].t
InvLaplacian == Len(buses) > 0 => \A s \in 1..NSeq : LET y == TLCEval(Ybus(buses, lines, s)) IN
    \A a \in 1..Len(buses) : CSum(y[a]) = C0 /\ \A b \in 1..Len(buses) : y[a][b] = y[b][a]
\* a network made of the lines of an admittance matrix alone has that admittance matrix
InvRebuild == Len(hist) > 0 => LET e == hist[Len(hist)].e IN
    e.op = "create_lines_from_ybus" => Ybus(buses, e.new, 1) = ToC(e.y)
InvPassive == Len(hist) > 0 => \A ph \in 1..3 : LET s == hist[Len(hist)].after IN
    /\ {s.passive[ph][k] : k \in 1..Len(s.passive[ph])} \subseteq BusIds
    /\ {s.passive[ph][k] : k \in 1..Len(s.passive[ph])} \cap {s.pcc[k] : k \in 1..Len(s.pcc)} = {}
\* a further load only takes its bus out of the passive ones
InvLoad == Len(hist) > 1 => LET ToSet(q) == {q[k] : k \in 1..Len(q)} e == hist[Len(hist)].e a == hist[Len(hist)].after b == hist[Len(hist) - 1].after IN
    e.op = "add_load" => \A ph \in 1..3 :
        ToSet(a.passive[ph]) = IF e.p[ph] = 0 /\ e.q[ph] = 0 THEN ToSet(b.passive[ph]) ELSE ToSet(b.passive[ph]) \ {e.id}
InvAreas == \A k \in 1..Len(lines) : GrpOf(lines[k].f) = GrpOf(lines[k].t)
EmitCase == done => Emit([three |-> Three, hist |-> hist])
=============================================================================
