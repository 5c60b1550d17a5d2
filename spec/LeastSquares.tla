---------------------------- MODULE LeastSquares ----------------------------
(* C07. Least-squares problems with known exact answers (Gaussian integers):                                        *)
(*   exact:  Z = X B                                   -> ordinary and total least squares give B                   *)
(*   ols:    Z = X B + R,  X^H R = 0                   -> ordinary least squares gives B                            *)
(*   tls:    [X Z] = A [I B] + W [-B^H I], A^H W = 0, every singular value of the first term above every one of the *)
(*           second -> total least squares gives B (the smallest perturbation removes the second term)              *)
(* With Big, problems with many parameters: the inputs are X = A U for orthogonal columns A and a unit upper          *)
(* triangular U (full rank by construction), the residuals are further orthogonal columns W.                          *)
EXTENDS Units
CONSTANTS MinN, MaxT, MaxN, MaxM, Bnd, Big
VARIABLES kind, data, B, u, ok, small
vars == <<kind, data, B, u, ok, small>>

Herm(M0) == LET M == TLCEval(M0) IN TLCEval([j \in 1..NC(M) |-> [i \in 1..NR(M) |-> GConj(M[i][j])]])
GMadd(P0, Q00) == LET P == TLCEval(P0) Q2 == TLCEval(Q00) IN TLCEval([i \in 1..NR(P) |-> [j \in 1..NC(P) |-> GAdd(P[i][j], Q2[i][j])]])
GScale(s0, M0) == LET s == TLCEval(s0) M == TLCEval(M0) IN TLCEval([i \in 1..NR(M) |-> [j \in 1..NC(M) |-> GMul(s, M[i][j])]])
GEye(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<1, 0>> ELSE <<0, 0>>]]
Beside(P, Q2) == [i \in 1..NR(P) |-> P[i] \o Q2[i]]
IsZero(M) == \A i \in 1..NR(M), j \in 1..NC(M) : M[i][j] = <<0, 0>>
Minor(M, r, c) == TLCEval( LET ri == SetToSortedSeq((1..NR(M)) \ {r}) ci == SetToSortedSeq((1..NC(M)) \ {c})
                  IN [i \in 1..Len(ri) |-> [j \in 1..Len(ci) |-> M[ri[i]][ci[j]]]])
RECURSIVE Det(_)
Det(M) == IF NR(M) = 0 THEN <<1, 0>> ELSE IF NR(M) = 1 THEN M[1][1]
          ELSE GSum([j \in 1..NC(M) |-> LET t == GMul(M[1][j], Det(Minor(M, 1, j))) IN IF j % 2 = 1 THEN t ELSE GNeg(t)])
Adj(M) == IF NR(M) = 1 THEN <<<<<<1, 0>>>>>>
          ELSE [i \in 1..NR(M) |-> [j \in 1..NR(M) |-> LET t == Det(Minor(M, j, i)) IN IF (i + j) % 2 = 0 THEN t ELSE GNeg(t)]]
Gram(X) == GMM(Herm(X), X)
FullRank(X) == Det(Gram(X)) # <<0, 0>>

\* Sylvester-Hadamard columns: pairwise orthogonal, norm T
RECURSIVE Par(_)
Par(k) == IF k = 0 THEN 0 ELSE (k % 2) + Par(k \div 2)
RECURSIVE AndB(_, _)
AndB(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE (a % 2) * (b % 2) + 2 * AndB(a \div 2, b \div 2)
Had(T, i, j) == IF Par(AndB(i - 1, j - 1)) % 2 = 0 THEN 1 ELSE -1
Units == {<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>}

RandG(real) == IF real THEN <<RandInt(-Bnd, Bnd), 0>> ELSE <<RandInt(-Bnd, Bnd), RandInt(-Bnd, Bnd)>>
RandM(r, c, real) == [i \in 1..r |-> [j \in 1..c |-> RandG(real)]]
Frob2(M) == SumSeq([i \in 1..NR(M) |-> SumSeq([j \in 1..NC(M) |-> M[i][j][1] * M[i][j][1] + M[i][j][2] * M[i][j][2]])])
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

Init == kind = "none" /\ data = <<>> /\ B = <<>> /\ u = UnitsOf(0, 0, 0) /\ ok = FALSE /\ small = FALSE
\* the exhaustive scalar problems
Scalars == {<<a, b>> : a \in -1..1, b \in -1..1}
InitSmall == /\ kind = "small" /\ u = UnitsOf(0, 0, 0) /\ ok = TRUE /\ small = TRUE
             /\ \E p, q, r \in Scalars : /\ data = <<<<<<p>>, <<q>>>>, <<>>>> /\ B = <<<<r>>>>
                                        /\ (p # <<0, 0>> \/ q # <<0, 0>>)
\* some injective choices of k Hadamard columns
Perms(k, T) == {[j \in 1..k |-> ((a * (j - 1) + b) % T) + 1] : a \in {1, 3}, b \in 0..T - 1}
Had1(real) == RandomElement(IF real THEN {<<1, 0>>, <<-1, 0>>} ELSE Units)
Columns(n, m, T, real, lo, w) ==
    [d |-> [j \in 1..n |-> GMul(Had1(real), <<RandInt(lo, lo + 4), 0>>)],
     w |-> [j \in 1..m |-> RandInt(0, w)],
     ph |-> [i \in 1..T |-> Had1(real)],
     cols |-> RandomElement(Perms(n + m, T)),
     U |-> [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<1, 0>> ELSE IF j > i /\ j - i < 3 THEN <<RandInt(-1, 1), 0>> ELSE <<0, 0>>]]]
Pow2(k) == IF k <= 4 THEN 4 ELSE IF k <= 8 THEN 8 ELSE IF k <= 16 THEN 16 ELSE 32
\* above every singular value of the part to be removed
Above(n, m) == CHOOSE k \in 1..200 : k * k > 1 + 2 * Bnd * Bnd * n * m /\ (k - 1) * (k - 1) <= 1 + 2 * Bnd * Bnd * n * m
PickBig == /\ kind = "none" /\ Big
           /\ \E n \in {RandInt(MinN, MaxN)}, m \in {RandInt(1, MaxM)}, real \in {RandInt(0, 2) = 0}, k \in {RandomElement({"exact", "ols", "tls"})} :
                /\ B' = RandM(n, m, real)
                /\ kind' = k /\ u' = IF k = "ols" THEN UnitsFree(n) ELSE UnitsTied(n)
                /\ \E c \in {Columns(n, m, Pow2(n + m), real, IF k = "tls" THEN Above(n, m) ELSE 1, IF k = "exact" THEN 0 ELSE 1)} : data' = <<c, Pow2(n + m)>>
           /\ ok' = FALSE /\ UNCHANGED small
Pick == /\ kind = "none" /\ ~Big
        /\ \E n \in {RandInt(MinN, MaxN)}, m \in {RandInt(1, MaxM)}, real \in {RandInt(0, 2) = 0} :
             /\ B' = RandM(n, m, real)
             /\ \/ /\ kind' = "exact"
                   /\ \E T \in {RandInt(n, MaxT)} : data' = <<RandM(T, n, real), <<>>>>
                \/ /\ kind' = "ols" /\ n <= 3
                   /\ \E T \in {RandInt(n + 1, MinOf(MaxT, 5))} : data' = <<RandM(T, n, real), RandM(T, m, real)>>
                \/ /\ kind' = "less"               \* not enough, or dependent, measurements: only optimality is left
                   /\ \E T \in {RandInt(1, MaxT)}, r \in {RandInt(1, 2)} :
                      \E G \in {RandM(T, r, real)}, H \in {RandM(r, n, real)} : data' = <<GMM(G, H), RandM(T, m, real)>>
                \/ /\ kind' = "tls" /\ n * m <= 7
                   /\ \E T \in {IF n + m > 4 THEN 8 ELSE RandomElement({4, 8})} :
                      data' = <<[d |-> [j \in 1..n |-> GMul(RandomElement(IF real THEN {<<1, 0>>, <<-1, 0>>} ELSE Units),
                                                             <<RandInt(8, 12), 0>>)],
                                 w |-> [j \in 1..m |-> RandInt(0, 1)],
                                 ph |-> [i \in 1..T |-> RandomElement(IF real THEN {<<1, 0>>, <<-1, 0>>} ELSE Units)],
                                 cols |-> RandomElement(Perms(n + m, T))], T>>
        /\ u' = IF kind' = "tls" THEN UnitsTied(kind) ELSE UnitsFree(kind)
        /\ ok' = FALSE /\ UNCHANGED small
Usable == CASE Big -> TRUE
            [] kind \in {"exact", "small"} -> FullRank(data[1])
            [] kind = "ols" -> FullRank(data[1])
            [] kind = "less" -> ~FullRank(data[1]) /\ ~IsZero(data[1])
            [] OTHER -> TRUE
Judge == kind # "none" /\ ~ok /\ Usable /\ ok' = TRUE /\ UNCHANGED <<kind, data, B, u, small>>
Spec == Init /\ [][Pick \/ PickBig \/ Judge]_vars
SpecSmall == InitSmall /\ [][UNCHANGED vars]_vars

\* ------------------------------------------------------------------ the problems and their certificates
N == NR(B)
M == NC(B)
TlsA ==
 [i \in 1..data[2] |-> [j \in 1..N |-> GMul(data[1].ph[i], GMul(<<Had(data[2], i, data[1].cols[j]), 0>>, data[1].d[j]))]]
TlsW == [i \in 1..data[2] |-> [j \in 1..M |-> GMul(data[1].ph[i], <<Had(data[2], i, data[1].cols[N + j]) * data[1].w[j], 0>>)]]
OlsR == LET X == data[1] G == TLCEval(Gram(X))          \* (det(G) I - X adj(G) X^H) W
        IN GMadd(GScale(Det(G), data[2]), GScale(<<-1, 0>>, GMM(X, GMM(Adj(G), GMM(Herm(X), data[2])))))
BigX == GMM(TlsA, data[1].U)
Xof == CASE kind # "tls" /\ Big -> BigX [] kind = "tls" -> GMadd(TlsA, GScale(<<-1, 0>>, GMM(TlsW, Herm(B)))) [] OTHER -> data[1]
Zof == CASE kind # "tls" /\ Big -> GMadd(GMM(BigX, B), TlsW)
         [] kind = "tls" -> GMadd(GMM(TlsA, B), TlsW)
         [] kind = "ols" -> GMadd(GMM(data[1], B), OlsR)
         [] kind = "less" -> data[2]
         [] OTHER -> GMM(data[1], B)
InvUnits == Consistent(u)
InvOls == ok /\ kind = "ols" => IF Big THEN IsZero(GMM(Herm(BigX), TlsW)) ELSE IsZero(GMM(Herm(data[1]), OlsR))
InvTls == ok /\ kind = "tls" =>
            /\ IsZero(GMM(Herm(TlsA), TlsW))
            /\ IsZero(GMM(Beside(GEye(N), B), Herm(Beside(GScale(<<-1, 0>>, Herm(B)), GEye(M)))))
            \* smallest kept singular value above the largest removed one
            /\ \A j \in 1..N : GMul(data[1].d[j], GConj(data[1].d[j]))[1] > 1 + Frob2(B)
\* every input and every output can have units of its own: the columns of the data and the rows or the columns of the
\* parameters by the same factors
Tied == kind = "exact" /\ (u.x - u.z) \in (-8)..8
OutUnits == [j \in 1..M |-> IF kind = "ols" \/ Tied THEN RandomElement({0, 0, -7, 8, 13}) ELSE 0]
InUnits == [j \in 1..N |-> IF kind = "ols" \/ Tied THEN RandomElement({0, 0, -8, 8, 13}) ELSE 0]
EmitCase == ok => Emit([kind |-> kind, u |-> u, out |-> OutUnits, in |-> InUnits, X |-> Xof, Z |-> Zof, B |-> B])
=============================================================================
