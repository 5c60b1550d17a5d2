----------------------------- MODULE Elimination -----------------------------
(* Fraction-free (Bareiss) elimination of nodes of a matrix of Gaussian integers: what remains is m / p.             *)
EXTENDS Num
G0 == <<0, 0>>
GDivX(x, y) == LET n == y[1] * y[1] + y[2] * y[2] z == GMul(x, GConj(y)) IN <<z[1] \div n, z[2] \div n>>
Without(s, i) == SelectSeq([k \in 1..Len(s) |-> <<k, s[k]>>], LAMBDA e : e[1] # i)
\* one step: eliminates the node at position k of the labelled matrix (ids, M) whose previous pivot is p
Step(st, id) ==
    LET k == CHOOSE q \in 1..Len(st.ids) : st.ids[q] = id
        piv == st.m[k][k]
        keep == SelectSeq([q \in 1..Len(st.ids) |-> q], LAMBDA q : q # k)
    IN IF piv = G0 THEN [st EXCEPT !.ok = FALSE]
       ELSE [ok |-> st.ok, ids |-> [a \in 1..Len(keep) |-> st.ids[keep[a]]], p |-> piv,
             m |-> TLCEval([a \in 1..Len(keep) |-> [b \in 1..Len(keep) |->
                      GDivX(GSub(GMul(piv, st.m[keep[a]][keep[b]]), GMul(st.m[keep[a]][k], st.m[k][keep[b]])), st.p)]])]
RECURSIVE Elim(_, _)
Elim(st, es) == IF es = <<>> \/ ~st.ok THEN st ELSE Elim(TLCEval(Step(st, Head(es))), Tail(es))
Schur(Y, es) == Elim([ok |-> TRUE, ids |-> [i \in 1..NR(Y) |-> i], p |-> <<1, 0>>, m |-> Y], es)
=============================================================================
