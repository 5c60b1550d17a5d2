----------------------------- MODULE Templates -----------------------------
(* C18. Built-in networks, read from the code (environment variable IN): well-formed graphs, and sub-networks that  *)
(* are the corresponding parts of the full one. Each state judges one network (or one sub-network); what is wrong   *)
(* with it is emitted.                                                                                              *)
EXTENDS Num
Data == JsonDeserialize(IOEnv.IN)
Nets == Data.nets
Subs == Data.subs
VARIABLE k
Init == k = 0
Next == k < Len(Nets) + Len(Subs) /\ k' = k + 1
Spec == Init /\ [][Next]_k
\* ------------------------------------------------------------------ well-formed
\* bus: [id, type, kv, p, q, pneg]   line: [f, t, len, r, x (micro-ohm), on, typ, known, rs, xs (exact)]
Served(n) == {i \in 1..Len(n.lines) : n.lines[i].on > 0}
Ends(l) == {l.f, l.t}
RECURSIVE Reach(_, _)
Reach(S, e) == LET T == S \cup UNION {x \in e : x \cap S # {}} IN IF T = S THEN S ELSE Reach(T, e)
Problems(n) ==
    LET ids == {n.buses[i].id : i \in 1..Len(n.buses)}
        p(c, s) == IF c THEN {} ELSE {s}
    IN p(\A i \in 1..Len(n.buses) : n.buses[i].id = i, "nodes are not numbered consecutively")
       \cup p(Cardinality({i \in 1..Len(n.buses) : n.buses[i].type = 3}) = 1, "not exactly one grid connection")
       \cup p(\A i \in 1..Len(n.buses) : n.buses[i].type \in {1, 2, 3}, "unknown type of node")
       \cup p(\A i, j \in 1..Len(n.buses) : n.buses[i].kv = n.buses[j].kv, "different voltage levels without transformer")
       \cup p(\A i \in 1..Len(n.buses) : n.buses[i].kvpos = 1, "nominal voltage not positive")
       \cup UNION {p(Ends(n.lines[i]) \subseteq ids, "line to a node that does not exist: " \o ToString(Ends(n.lines[i]))) : i \in 1..Len(n.lines)}
       \cup UNION {p(n.lines[i].f # n.lines[i].t, "line from a node to itself: " \o ToString(n.lines[i].f)) : i \in 1..Len(n.lines)}
       \cup UNION {p(n.lines[i].lenpos = 1, "length not positive: " \o ToString(Ends(n.lines[i]))) : i \in 1..Len(n.lines)}
       \cup UNION {p(n.lines[i].zpos = 1, "impedance not positive: " \o ToString(Ends(n.lines[i]))) : i \in 1..Len(n.lines)}
       \cup UNION {p(Cardinality({j \in 1..Len(n.lines) : Ends(n.lines[j]) = Ends(n.lines[i])}) = 1, "duplicate line " \o ToString(Ends(n.lines[i]))) : i \in 1..Len(n.lines)}
       \cup p(Reach({n.buses[1].id}, {Ends(n.lines[i]) : i \in Served(n)}) = ids, "not connected")
       \cup p(n.weighted = "", "admittance matrix: " \o n.weighted)
\* ------------------------------------------------------------------ parts of a larger network
Image(s, i) == LET m == SelectSeq(s.map, LAMBDA e : e[1] = i) IN IF m = <<>> THEN i ELSE m[1][2]
NetNamed(x) == Nets[CHOOSE i \in 1..Len(Nets) : Nets[i].name = x]
SubProblems(s) ==
    LET a == NetNamed(s.part) b == NetNamed(s.whole)
        p(c, t) == IF c THEN {} ELSE {t}
        im == {Image(s, a.buses[i].id) : i \in 1..Len(a.buses)}
        bus(id) == b.buses[CHOOSE i \in 1..Len(b.buses) : b.buses[i].id = id]
        ok == im \subseteq {b.buses[i].id : i \in 1..Len(b.buses)}
        here(l) == {j \in 1..Len(b.lines) : Ends(b.lines[j]) = {Image(s, l.f), Image(s, l.t)}}
    IN p(ok /\ Cardinality(im) = Len(a.buses), "the mapping does not map its nodes into the whole network")
       \cup (IF ~ok THEN {} ELSE
         UNION {LET x == a.buses[i] y == bus(Image(s, a.buses[i].id)) IN
                p(x.p = y.p /\ x.q = y.q /\ x.type = y.type /\ x.kv = y.kv, "node " \o ToString(x.id) \o " differs") : i \in 1..Len(a.buses)}
         \cup UNION {LET l == a.lines[i] IN p(\E j \in here(l) : b.lines[j].rs = l.rs /\ b.lines[j].xs = l.xs /\ b.lines[j].len = l.len /\ b.lines[j].on = l.on,
                "line " \o ToString(Ends(l)) \o " differs") : i \in 1..Len(a.lines)}
         \cup UNION {LET l == b.lines[j] IN p(~(Ends(l) \subseteq im) \/ \E i \in 1..Len(a.lines) : j \in here(a.lines[i]),
                "line " \o ToString(Ends(l)) \o " of the whole network is missing") : j \in 1..Len(b.lines)})
EmitCase == k > 0 => Emit(IF k <= Len(Nets) THEN [key |-> Nets[k].name, problems |-> Problems(Nets[k]), size |-> Len(Nets[k].buses)]
                          ELSE [key |-> Subs[k - Len(Nets)].part, problems |-> SubProblems(Subs[k - Len(Nets)]), size |-> -1])
=============================================================================
