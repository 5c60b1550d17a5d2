------------------------------- MODULE Prior -------------------------------
(* C05. Priors as stacks of beliefs. The state is the history of operations on a few prior objects; the meaning of  *)
(* a history is the sequence of rows [coef, mu, gamma] of every object, and the quadratic model at a point.         *)
EXTENDS Num
CONSTANTS N,          \* parameters
          MaxOps,     \* additions/copies in a history
          MaxM,       \* beliefs per addition
          Random,     \* random values (simulation) instead of a fixed sweep
          Copies      \* allow copies
VARIABLES hist, pt, done

Kinds == {"exact", "known", "sparsity", "adaptive", "contrast", "ratios"}     \* known: an exact value, "adaptive" in the code
WForms == {"none", "scalar", "each"}
OForms == {"default", "scalar", "each"}
Vals == {<<1, 1>>, <<-1, 1>>, <<2, 1>>, <<-3, 1>>, <<1, 2>>, <<-5, 2>>, <<7, 4>>}
VSeq == <<<<2, 1>>, <<-3, 1>>, <<1, 2>>, <<-1, 1>>, <<7, 4>>>>
Ws == {<<1, 2>>, <<3, 1>>, <<1, 4>>, <<2, 1>>}
WSeq == <<<<1, 2>>, <<3, 1>>, <<2, 1>>, <<1, 4>>>>
V(s) == IF Random THEN RandomElement(Vals) ELSE VSeq[(s % 5) + 1]
W(s) == IF Random THEN RandomElement(Ws) ELSE WSeq[(s % 4) + 1]
O(s) == IF Random THEN RandomElement({0, 1, 2}) ELSE ((s * 2 + 1) % 3)
Sub(k) == {S \in SUBSET (0..N - 1) : Cardinality(S) = k}
Idx(s) == IF Random THEN RandInt(0, N - 1) ELSE (s * 2 + 1) % N
\* a row of k distinct parameters
IdxRow(k, s) == IF Random THEN LET q == SetToSortedSeq(RandomElement(Sub(k))) IN
                                   IF RandInt(0, 1) = 1 THEN q ELSE [i \in 1..k |-> q[k + 1 - i]]
                ELSE [i \in 1..k |-> (s + 2 * i) % N]
Width(kd, s) == IF kd = "ratios" THEN 2 ELSE IF Random THEN RandInt(1, N) ELSE 2
MkOp(kd, m, wf, of, obj, k) ==
    LET s == Len(hist) * 3 IN
    [kind |-> kd, obj |-> obj, m |-> m,
        idx |-> IF kd \in {"contrast", "ratios"} THEN [i \in 1..m |-> IdxRow(k, s + i)] ELSE [i \in 1..m |-> Idx(s + i)],
        vals |-> [i \in 1..m |-> V(s + i)],
        wf |-> wf, ws |-> IF wf = "each" THEN [i \in 1..m |-> W(s + i)] ELSE <<W(s)>>,
        of |-> of, os |-> IF of = "each" THEN [i \in 1..m |-> O(s + i)] ELSE <<O(s)>>]

\* ------------------------------------------------------------------ meaning
Wgt(op, i) == IF op.wf = "none" THEN Q1 ELSE IF op.wf = "scalar" THEN op.ws[1] ELSE op.ws[i]
Ord(op, i) == IF op.of = "default" THEN 2 ELSE IF op.of = "scalar" THEN op.os[1] ELSE op.os[i]
Unit(j, q) == [c \in 1..N |-> IF c = j + 1 THEN q ELSE Q0]
Row(op, i) ==
    LET w == Wgt(op, i) v == op.vals[i] IN
    [coef |-> CASE op.kind \in {"exact", "known"} -> Unit(op.idx[i], w)
                [] op.kind = "sparsity" -> Unit(op.idx[i], w)
                [] op.kind = "adaptive" -> Unit(op.idx[i], QInv(v))
                [] op.kind = "contrast" ->
                     [c \in 1..N |-> IF \E t \in 1..Len(op.idx[i]) : op.idx[i][t] = c - 1 THEN QDiv(w, v) ELSE Q0]
                [] op.kind = "ratios" ->
                     [c \in 1..N |-> IF op.idx[i][1] = c - 1 THEN w
                                     ELSE IF op.idx[i][2] = c - 1 THEN QNeg(QMul(w, v)) ELSE Q0],
     mu |-> CASE op.kind \in {"exact", "known"} -> QMul(w, v) [] op.kind = "contrast" -> w [] OTHER -> Q0,
     gam |-> Ord(op, i),
     \* priors without orders weigh known values relatively to themselves
     rel |-> IF op.kind = "known" THEN QInv(v) ELSE Q1]
Rows(op) == [i \in 1..op.m |-> Row(op, i)]
\* objects after a history: a sequence of stacks
RECURSIVE Objects(_)
Objects(h) == IF h = <<>> THEN <<<<>>>>
              ELSE LET o == Objects(SubSeq(h, 1, Len(h) - 1)) op == h[Len(h)] IN
                   IF op.kind = "copy" THEN Append(o, o[op.obj])
                   ELSE [o EXCEPT ![op.obj] = @ \o Rows(op)]
NObj == 1 + Len(SelectSeq(hist, LAMBDA op : op.kind = "copy"))

\* the quadratic model at x with smoothing al: terms of every entry of A = sum_r c_r' c_r / w_r, b = sum_r c_r mu_r / w_r
Resid(r, x) == QAbs(QSub(QSum([c \in 1..N |-> QMul(r.coef[c], x[c])]), r.mu))
Weight(r, x, al) == QAdd(CASE r.gam = 2 -> Q1 [] r.gam = 1 -> Resid(r, x) [] OTHER -> QSq(Resid(r, x)), al)
ModelOf(rows, x, al) ==
    LET w == [k \in 1..Len(rows) |-> Weight(rows[k], x, al)] IN
    [w |-> w,
     A |-> [i \in 1..N |-> [j \in 1..N |-> LET ks == SelectSeq([k \in 1..Len(rows) |-> k],
                                            LAMBDA k : rows[k].coef[i] # Q0 /\ rows[k].coef[j] # Q0) IN
              [t \in 1..Len(ks) |-> QDiv(QMul(rows[ks[t]].coef[i], rows[ks[t]].coef[j]), w[ks[t]])]]],
     b |-> [i \in 1..N |-> LET ks == SelectSeq([k \in 1..Len(rows) |-> k], LAMBDA k : rows[k].coef[i] # Q0) IN
              [t \in 1..Len(ks) |-> QDiv(QMul(rows[ks[t]].coef[i], rows[ks[t]].mu), w[ks[t]])]]]

\* ------------------------------------------------------------------ machine
Init == hist = <<>> /\ pt = <<>> /\ done = FALSE
Some(S) == IF Random THEN {RandomElement(S)} ELSE S
Add == \E kd \in Some(Kinds), m \in Some(1..MaxM), wf \in Some(WForms), of \in Some(OForms), obj \in Some(1..NObj) :
          /\ (kd = "adaptive" /\ ~Random => wf = "none")
          /\ \E k \in {Width(kd, 0)} : hist' = Append(hist, MkOp(kd, m, wf, of, obj, k))
Copy == Copies /\ NObj < 3 /\ \E obj \in Some(1..NObj) : hist' = Append(hist, [kind |-> "copy", obj |-> obj, m |-> 0])
Point(k) == IF Random THEN [x |-> [c \in 1..N |-> <<RandInt(-8, 8), 4>>], al |-> RandomElement({<<1, 2>>, <<1, 8>>, <<1, 64>>})]
         ELSE [x |-> [c \in 1..N |-> Q(((c * 3) % 5) - 2, 2)], al |-> <<1, 8>>]
Next == \/ /\ Len(hist) < MaxOps
           /\ (Add \/ Copy)
           /\ pt' = Point(0) /\ done' = FALSE
        \/ Len(hist) = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, pt>>
Spec == Init /\ [][Next]_<<hist, pt, done>>

\* ------------------------------------------------------------------ properties of the design
RECURSIVE Cnt(_, _)
Cnt(h, obj) == IF h = <<>> THEN 0 ELSE Cnt(Tail(h), obj) + (IF Head(h).obj = obj THEN Head(h).m ELSE 0)
\* one row per belief; the first object never sees additions to its copies
InvRows == Len(Objects(hist)[1]) = Cnt(hist, 1)
InvOrder == \A k \in 1..Len(hist) : hist[k].kind # "copy" =>
              LET o == Objects(SubSeq(hist, 1, k)) p == Objects(SubSeq(hist, 1, k - 1)) IN
              \A j \in 1..Len(o) : IF j = hist[k].obj THEN SubSeq(o[j], 1, Len(p[j])) = p[j] /\ Len(o[j]) = Len(p[j]) + hist[k].m
                                   ELSE o[j] = p[j]
InvSym == hist # <<>> => LET m == ModelOf(Objects(hist)[1], pt.x, pt.al) IN \A i, j \in 1..N : m.A[i][j] = m.A[j][i]
EmitCase == done =>
    LET o == Objects(hist) IN
    Emit([n |-> N, hist |-> hist, pt |-> pt, rows |-> o,
          model |-> [k \in 1..Len(o) |-> ModelOf(o[k], pt.x, pt.al)]])
=============================================================================
