----------------------------- MODULE MatrixOps -----------------------------
(* C03. The layouts vec / vech / ve, the operators D, T, E_sym, E_lap between them, the real/complex embeddings and *)
(* deletion / re-insertion, first as definitions with their algebraic laws (checked for every size up to MaxN),     *)
(* then as a machine that applies random sequences of operations to a value: every behaviour is replayed on the     *)
(* code, which has to hold the same value after every step.                                                         *)
EXTENDS Layout
CONSTANTS MaxN, Extra, MaxOps, MaxDim, B
VARIABLES mode, n, val, kind, shape, hist, start, done

D(k) == [p \in 1..(k * k) |-> [q \in 1..NVech(k) |->
            LET c == VecCell(p, k) IN IF VechPos(MaxOf(c[1], c[2]), MinOf(c[1], c[2]), k) = q THEN 1 ELSE 0]]
\* off-diagonal admittances are minus the line parameters, diagonal ones the sum of the incident lines
T(k) == [p \in 1..NVech(k) |-> [q \in 1..NVe(k) |->
            LET c == VechCell(p, k) e == VeCell(q, k) IN
            IF c[1] = c[2] THEN (IF e[1] = c[1] \/ e[2] = c[1] THEN 1 ELSE 0)
            ELSE IF c = e THEN -1 ELSE 0]]
\* twice the symmetric elimination matrix (its entries are 1 on the diagonal and 1/2 elsewhere)
E2(k) == [p \in 1..NVech(k) |-> [q \in 1..(k * k) |->
            LET c == VechCell(p, k) IN
            IF c[1] = c[2] THEN (IF q = VecPos(c[1], c[1], k) THEN 2 ELSE 0)
            ELSE IF q = VecPos(c[1], c[2], k) \/ q = VecPos(c[2], c[1], k) THEN 1 ELSE 0]]
EL(k) == [p \in 1..NVe(k) |-> [q \in 1..NVech(k) |->
            LET e == VeCell(p, k) IN IF q = VechPos(e[1], e[2], k) THEN -1 ELSE 0]]

Eye(k, s) == [i \in 1..k |-> [j \in 1..k |-> IF i = j THEN s ELSE 0]]
\* laws, for one size
LayoutBijective(k) == /\ {VechPos(c[1], c[2], k) : c \in {x \in (1..k) \X (1..k) : x[1] >= x[2]}} = 1..NVech(k)
                      /\ {VePos(c[1], c[2], k) : c \in {x \in (1..k) \X (1..k) : x[1] > x[2]}} = 1..NVe(k)
LeftInverses(k) == IMM(E2(k), D(k)) = Eye(NVech(k), 2) /\ IMM(EL(k), T(k)) = Eye(NVe(k), 1)
\* vec of every D-generated matrix is symmetric, of every D T-generated one also has zero row sums
Symmetric(k) == \A q \in 1..NVech(k), i, j \in 1..k : D(k)[VecPos(i, j, k)][q] = D(k)[VecPos(j, i, k)][q]
ZeroRows(k) == \A q \in 1..NVe(k), i \in 1..k :
                  SumSeq([j \in 1..k |-> IMM(D(k), T(k))[VecPos(i, j, k)][q]]) = 0
Laws(k) == LayoutBijective(k) /\ LeftInverses(k) /\ Symmetric(k) /\ (k > 4 \/ ZeroRows(k))

\* ------------------------------------------------------------------ operations on values (Gaussian integers)
Vec(M) == [p \in 1..(NR(M) * NC(M)) |-> LET c == VecCell(p, NR(M)) IN M[c[1]][c[2]]]
Unvec(v, r, c) == [i \in 1..r |-> [j \in 1..c |-> v[VecPos(i, j, r)]]]
RealVec(v) == [p \in 1..Len(v) |-> <<v[p][1], 0>>] \o [p \in 1..Len(v) |-> <<v[p][2], 0>>]
ComplexVec(v) == [p \in 1..(Len(v) \div 2) |-> <<v[p][1], v[p + Len(v) \div 2][1]>>]
RealMat(M) == [i \in 1..(2 * NR(M)) |-> [j \in 1..(2 * NC(M)) |->
                 LET z == M[IF i > NR(M) THEN i - NR(M) ELSE i][IF j > NC(M) THEN j - NC(M) ELSE j]
                 IN <<IF (i > NR(M)) = (j > NC(M)) THEN z[1] ELSE IF i > NR(M) THEN z[2] ELSE -z[2], 0>>]]
ComplexMat(M) == [i \in 1..(NR(M) \div 2) |-> [j \in 1..(NC(M) \div 2) |->
                    <<M[i][j][1], M[i + NR(M) \div 2][j][1]>>]]
Keep(k, S) == SetToSortedSeq((1..k) \ S)
DelRows(M, S) == LET K == Keep(NR(M), S) IN [i \in 1..Len(K) |-> M[K[i]]]
DelCols(M, S) == LET K == Keep(NC(M), S) IN [i \in 1..NR(M) |-> [j \in 1..Len(K) |-> M[i][K[j]]]]
\* zero rows at final positions S
UndelRows(M, S) == LET t == NR(M) + Cardinality(S)
                       src(i) == i - Cardinality({s \in S : s <= i})
                   IN [i \in 1..t |-> IF i \in S THEN [j \in 1..NC(M) |-> <<0, 0>>] ELSE M[src(i)]]
UndelCols(M, S) == Tr(UndelRows(Tr(M), S))
IsReal == \A i \in 1..Len(val) : IF kind = "mat" THEN \A j \in 1..NC(val) : val[i][j][2] = 0 ELSE val[i][2] = 0

\* ------------------------------------------------------------------ machine
vars == <<mode, n, val, kind, shape, hist, start, done>>
RandM(r, c) == [i \in 1..r |-> [j \in 1..c |-> <<RandInt(-B, B), RandInt(-B, B)>>]]
Init == /\ mode = "laws" /\ n = 0 /\ val = <<>> /\ kind = "none" /\ shape = <<0, 0>> /\ hist = <<>> /\ start = <<>> /\ done = FALSE
\* size by size: laws and tables
\* (the laws up to MaxN, the tables also for a few larger sizes)
Size == /\ mode = "laws" /\ n < MaxN + Cardinality(Extra) /\ n' = n + 1 /\ UNCHANGED <<mode, val, kind, shape, hist, start, done>>

InitOps == /\ mode = "ops" /\ n = 0 /\ hist = <<>> /\ kind = "mat" /\ val = <<>> /\ shape = <<0, 0>> /\ start = <<>> /\ done = FALSE
Start == /\ mode = "ops" /\ val = <<>>
         /\ \E r, c \in 1..MaxDim : \E M \in {RandM(r, c)} :
              /\ val' = M /\ start' = M /\ shape' = <<r, c>>
              /\ UNCHANGED <<mode, n, kind, hist, done>>
Step(op, arg, v, k) == /\ val' = v /\ kind' = k
                       /\ shape' = IF k = "mat" THEN <<Len(v), Len(v[1])>> ELSE <<Len(v), 0>>
                       /\ hist' = Append(hist, [op |-> op, arg |-> arg, val |-> v, kind |-> k])
                       /\ UNCHANGED <<mode, n, start, done>>
\* a random proper non-empty subset of 1..t; m final positions after inserting m into t (spread over three bands when t is large)
Proper(X, t) == IF X = {} \/ X = 1..t THEN {t} ELSE X
RandSet(t) == {i \in 1..t : RandInt(0, 2) = 0}
Positions(m, t) == IF t <= 5 THEN RandomElement({X \in SUBSET (1..(t + m)) : Cardinality(X) = m})
                   ELSE {RandInt(((k - 1) * (t + m)) \div m + 1, (k * (t + m)) \div m) : k \in 1..m}
Factors(k) == {p \in (1..k) \X (1..k) : p[1] * p[2] = k}
Ops ==
    /\ mode = "ops" /\ val # <<>> /\ Len(hist) < MaxOps
    /\ \/ kind = "mat" /\ Step("vec", 0, Vec(val), "vec")
       \/ kind = "vec" /\ \E f \in Factors(Len(val)) : Step("unvec", f, Unvec(val, f[1], f[2]), "mat")
       \/ kind = "vec" /\ Len(val) <= 12 * MaxDim /\ Step("realvec", 0, RealVec(val), "vec")
       \/ kind = "vec" /\ Len(val) % 2 = 0 /\ IsReal /\ Step("complexvec", 0, ComplexVec(val), "vec")
       \/ kind = "mat" /\ NR(val) <= MaxDim + 1 /\ NC(val) <= MaxDim + 1
            /\ \E s \in {"dense", "csr", "csc", "coo"} : Step("realmat", s, RealMat(val), "mat")
       \/ kind = "mat" /\ NR(val) % 2 = 0 /\ NC(val) % 2 = 0 /\ IsReal
            /\ \E s \in {"dense", "csr", "csc"} : Step("complexmat", s, ComplexMat(val), "mat")
       \/ kind = "mat" /\ NR(val) \in 2..(2 * MaxDim + 2)
            /\ \E X \in {RandSet(NR(val))} : \E S \in {Proper(X, NR(val))} : Step("delrows", S, DelRows(val, S), "mat")
       \/ kind = "mat" /\ NC(val) \in 2..(2 * MaxDim + 2)
            /\ \E X \in {RandSet(NC(val))} : \E S \in {Proper(X, NC(val))} : Step("delcols", S, DelCols(val, S), "mat")
       \/ kind = "mat" /\ NR(val) <= MaxDim + 1
            /\ \E m \in 1..3 : \E S \in {Positions(m, NR(val))} :
                 Step("undelrows", S, UndelRows(val, S), "mat")
       \/ kind = "mat" /\ NC(val) <= MaxDim + 1
            /\ \E m \in 1..3 : \E S \in {Positions(m, NC(val))} :
                 Step("undelcols", S, UndelCols(val, S), "mat")
Stop == Len(hist) = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<mode, n, val, kind, shape, hist, start>>
SpecLaws == Init /\ [][Size]_vars
SpecOps == InitOps /\ [][Start \/ Ops \/ Stop]_vars

\* ------------------------------------------------------------------ properties of the design
InvLaws == mode = "laws" /\ n \in 1..MaxN => Laws(n)
\* what was undone is the value before: vec/unvec, real/complex, undelete/delete are inverse pairs
InvInverse ==
    mode = "ops" /\ val # <<>> /\ kind = "mat" =>
       /\ Unvec(Vec(val), NR(val), NC(val)) = val
       /\ ComplexVec(RealVec(Vec(val))) = Vec(val)
       /\ (NR(val) <= 4 /\ NC(val) <= 4 => ComplexMat(RealMat(val)) = val)
       /\ \A S \in {{1}, {NR(val) + 1}, {2, 3}} : (S \subseteq 1..(NR(val) + Cardinality(S))) => DelRows(UndelRows(val, S), S) = val
InvProduct ==
    mode = "ops" /\ val # <<>> /\ kind = "mat" /\ NR(val) <= 3 /\ NC(val) <= 3 =>
       /\ GMM(RealMat(val), RealMat(Tr(val))) = RealMat(GMM(val, Tr(val)))
EmitTables == mode = "laws" /\ n > 0 =>
    LET k == IF n <= MaxN THEN n ELSE SetToSortedSeq(Extra)[n - MaxN] IN
    Emit([t |-> "tables", n |-> k, D |-> D(k), T |-> T(k), E2 |-> E2(k), EL |-> EL(k)])
EmitOps == mode = "ops" /\ done => Emit([t |-> "ops", start |-> start, hist |-> hist])
=============================================================================
