-------------------------------- MODULE Mat --------------------------------
(***************************************************************************)
(* Matrices over a ring of Num, memory views, and the algebraic            *)
(* definitions (product, echelon form, rank profile matrix, determinant,   *)
(* characteristic polynomial ...) that the routine specifications refer to.*)
(* A matrix is a record [m, n, e], e the row-major sequence of entries.    *)
(* A buffer is a plain sequence of stored values.                          *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC
(* TLCEval only forces TLC to evaluate a function eagerly; it is the identity. *)

At(M, i, j) == M.e[(i - 1) * M.n + j]
Mk(m, n, F(_, _)) ==
  [m |-> m, n |-> n, e |-> TLCEval([x \in 1..(m * n) |-> F(((x - 1) \div n) + 1, ((x - 1) % n) + 1)])]
(* m x n window of buffer b starting at (0-based) offset off, leading dim ld *)
View(b, off, ld, m, n) == Mk(m, n, LAMBDA i, j : b[off + (i - 1) * ld + j])
(* strided vector as an n x 1 matrix *)
VView(b, off, inc, n) == Mk(n, 1, LAMBDA i, j : b[off + (i - 1) * inc + 1])
(* the buffer after storing M there: everything outside the window is kept *)
Put(b, off, ld, M) ==
  [x \in DOMAIN b |->
     LET d == x - 1 - off
     IN IF M.m > 0 /\ M.n > 0 /\ d >= 0 /\ (d \div ld) < M.m /\ (d % ld) < M.n
        THEN At(M, (d \div ld) + 1, (d % ld) + 1) ELSE b[x]]
VPut(b, off, inc, M) ==
  [x \in DOMAIN b |->
     LET d == x - 1 - off
     IN IF d >= 0 /\ d % inc = 0 /\ (d \div inc) < M.m THEN At(M, (d \div inc) + 1, 1) ELSE b[x]]
Tr(M) == Mk(M.n, M.m, LAMBDA i, j : At(M, j, i))
Op(t, M) == IF t THEN Tr(M) ELSE M
RECURSIVE DotR(_, _, _, _, _, _)
DotR(R, A, B, i, j, k) ==
  IF k = 0 THEN Zero(R)
  ELSE Add(R, DotR(R, A, B, i, j, k - 1), Mul(R, At(A, i, k), At(B, k, j)))
MM(R, A, B) == Mk(A.m, B.n, LAMBDA i, j : DotR(R, A, B, i, j, A.n))
(* a*A + b*B entry-wise *)
Lin(R, a, A, b, B) ==
  Mk(A.m, A.n, LAMBDA i, j : Add(R, Mul(R, a, At(A, i, j)), Mul(R, b, At(B, i, j))))
Scal(R, a, A) == Mk(A.m, A.n, LAMBDA i, j : Mul(R, a, At(A, i, j)))
CanM(R, A) == Mk(A.m, A.n, LAMBDA i, j : Can(R, At(A, i, j)))
CanonM(R, A) == \A x \in DOMAIN A.e : IsCanon(R, A.e[x])
Id(R, n) == Mk(n, n, LAMBDA i, j : IF i = j THEN One(R) ELSE Zero(R))
ZeroM(R, m, n) == Mk(m, n, LAMBDA i, j : Zero(R))
Sub4(M, i0, j0, m, n) == Mk(m, n, LAMBDA i, j : At(M, i0 + i, j0 + j))   \* 0-based corner
(* trapezoidal part: upper or lower triangle with stored or unit diagonal  *)
TriM(R, M, upper, unit) ==
  Mk(M.m, M.n, LAMBDA i, j :
       IF i = j THEN (IF unit THEN One(R) ELSE At(M, i, j))
       ELSE IF (upper /\ i < j) \/ (~upper /\ i > j) THEN At(M, i, j) ELSE Zero(R))
(* X with the entries of its upper/lower triangle taken from M (strict if unit) *)
PutTri(X, M, upper, unit) ==
  Mk(X.m, X.n, LAMBDA i, j :
       IF (i = j /\ ~unit) \/ (upper /\ i < j) \/ (~upper /\ i > j) THEN At(M, i, j) ELSE At(X, i, j))
SymM(M, upper) ==     \* the symmetric matrix stored in one triangle of M
  Mk(M.m, M.m, LAMBDA i, j : IF (upper /\ i <= j) \/ (~upper /\ i >= j) THEN At(M, i, j) ELSE At(M, j, i))

(* ------------------------------ permutations --------------------------- *)
(* LAPACK form: sequence P of 0-based transposition targets, P[i] >= i-1;  *)
(* LapMath(P, n)[i] = the (1-based) element found at position i after      *)
(* applying swap(i, P[i]+1) for i = 1, 2, ... to the identity sequence.     *)
RECURSIVE LapGo(_, _, _, _)
LapGo(P, s, i, n) ==
  IF i > n THEN s
  ELSE LET a == i  b == P[i] + 1
       IN LapGo(P, [s EXCEPT ![a] = s[b], ![b] = s[a]], i + 1, n)
LapMath(P, n) == LapGo(P, [i \in 1..n |-> i], 1, n)
IsLap(P, n) == \A i \in 1..n : P[i] >= i - 1 /\ P[i] < n
IsPerm(s, n) == {s[i] : i \in 1..n} = 1..n
(* rows of M gathered: row i of the result is row s[i] of M *)
RowG(M, s) == Mk(M.m, M.n, LAMBDA i, j : At(M, s[i], j))
ColG(M, s) == Mk(M.m, M.n, LAMBDA i, j : At(M, i, s[j]))
PInv(s) == [i \in DOMAIN s |-> CHOOSE j \in DOMAIN s : s[j] = i]
RECURSIVE PSignGo(_, _)
PSignGo(s, i) ==   \* parity of inversions
  IF i > Len(s) THEN 0
  ELSE (Cardinality({j \in (i + 1)..Len(s) : s[j] < s[i]}) + PSignGo(s, i + 1)) % 2
PSign(s) == IF PSignGo([i \in 1..Len(s) |-> s[i]], 1) = 0 THEN 1 ELSE -1

(* ------------------- elimination: rank, profiles, det, rref ------------ *)
(* Rows are processed in order and reduced by the earlier pivot rows: the  *)
(* result E has A = L E with L unit lower triangular, and non zero rows    *)
(* have pairwise distinct leading columns.  Hence the pivots (i, lead(i))  *)
(* are exactly the ones of the rank profile matrix of A.                   *)
LeadCol(R, row) ==
  LET S == {j \in DOMAIN row : Res(R, row[j]) # Res(R, Zero(R))}
  IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : j <= k
RECURSIVE RedRow(_, _, _, _)
RedRow(R, row, done, i) ==     \* done: sequence of [lead, row] with row[lead] = 1
  IF i > Len(done) THEN row
  ELSE LET d == done[i]
       IN IF d.lead = 0 THEN RedRow(R, row, done, i + 1)
          ELSE LET c == row[d.lead]
               IN RedRow(R, TLCEval([j \in DOMAIN row |-> Sub(R, row[j], Mul(R, c, d.row[j]))]), done, i + 1)
RowOf(M, i) == TLCEval([j \in 1..M.n |-> At(M, i, j)])
(* reducing by the earlier rows in order of their leading column, smallest first *)
RECURSIVE InsLead(_, _)
InsLead(d, s) == IF s = <<>> THEN <<d>>
                 ELSE IF d.lead < s[1].lead THEN <<d>> \o s ELSE <<s[1]>> \o InsLead(d, Tail(s))
RECURSIVE ElimGo(_, _, _, _, _)
ElimGo(R, M, i, done, piv) ==  \* piv: sequence (per row) of [lead, val] (0 if zero row)
  IF i > M.m THEN [done |-> done, piv |-> piv]
  ELSE LET r == RedRow(R, RowOf(M, i), done, 1)
           l == LeadCol(R, r)
       IN IF l = 0 THEN ElimGo(R, M, i + 1, done, Append(piv, [lead |-> 0, val |-> Zero(R)]))
          ELSE LET v == Inv(R, r[l])
               IN ElimGo(R, M, i + 1,
                         InsLead([lead |-> l, row |-> TLCEval([j \in DOMAIN r |-> Mul(R, v, r[j])])], done),
                         Append(piv, [lead |-> l, val |-> r[l]]))
Elim(R, M) == ElimGo(R, M, 1, <<>>, <<>>)
(* pivot column of each row (0: dependent row) *)
RPM(R, M) == LET x == Elim(R, M) IN [i \in 1..M.m |-> x.piv[i].lead]
NonZ(s) == Cardinality({i \in DOMAIN s : s[i] # 0})
Rank(R, M) == NonZ(RPM(R, M))
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>>
              ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SortSet(S \ {x})
RRP(R, M) == LET p == RPM(R, M) IN SortSet({i \in 1..M.m : p[i] # 0})
CRP(R, M) == LET p == RPM(R, M) IN SortSet({p[i] : i \in 1..M.m} \ {0})
RECURSIVE ProdV(_, _, _)
ProdV(R, piv, i) == IF i > Len(piv) THEN One(R) ELSE Mul(R, piv[i].val, ProdV(R, piv, i + 1))
(* over a field *)
DetF(R, M) ==
  LET x == Elim(R, M)
      s == [i \in 1..M.m |-> x.piv[i].lead]
  IN IF NonZ(s) < M.m THEN Zero(R)
     ELSE LET d == ProdV(R, x.piv, 1) IN IF PSign(s) = 1 THEN d ELSE Neg(R, d)
(* reduced row echelon form: r rows *)
RECURSIVE RrefGo(_, _, _)
RrefGo(R, done, i) ==
  IF i = 0 THEN done
  ELSE LET up == [k \in DOMAIN done |->
                   IF k >= i THEN done[k]
                   ELSE [lead |-> done[k].lead,
                         row |-> TLCEval([j \in DOMAIN done[k].row |->
                                   Sub(R, done[k].row[j], Mul(R, done[k].row[done[i].lead], done[i].row[j]))])]]
       IN RrefGo(R, up, i - 1)
Rref(R, M) ==
  LET d == Elim(R, M).done
      f == RrefGo(R, d, Len(d))
  IN Mk(Len(d), M.n, LAMBDA i, j : f[i].row[j])

(* --------------------- polynomials of a matrix ------------------------- *)
(* Berkowitz: division free, hence the definition used for any ring.       *)
(* Polynomials: sequences of coefficients, lowest degree first.            *)
RECURSIVE BerkGo(_, _, _, _)
RECURSIVE KrySeq(_, _, _, _)
KrySeq(R, A, v, k) == IF k = 0 THEN <<>> ELSE <<v>> \o KrySeq(R, A, MM(R, A, v), k - 1)
(* highest degree first vectors; T is (k+1) x k lower triangular Toeplitz *)
BerkGo(R, M, k, v) ==
  IF k > M.m THEN v
  ELSE LET A1 == Sub4(M, 0, 0, k - 1, k - 1)
           C1 == Sub4(M, 0, k - 1, k - 1, 1)
           R1 == Sub4(M, k - 1, 0, 1, k - 1)
           ks == KrySeq(R, A1, C1, k - 1)
           q  == <<One(R), Neg(R, At(M, k, k))>> \o
                 [i \in 1..(k - 1) |-> Neg(R, MM(R, R1, ks[i]).e[1])]
           T  == Mk(k + 1, k, LAMBDA i, j : IF i >= j THEN q[i - j + 1] ELSE Zero(R))
       IN BerkGo(R, M, k + 1, MM(R, T, [m |-> k, n |-> 1, e |-> v]).e)
CharPoly(R, M) ==
  LET h == BerkGo(R, M, 1, <<One(R)>>) IN [i \in 1..(M.m + 1) |-> h[M.m + 2 - i]]
DetZ(R, M) == LET c == CharPoly(R, M)[1] IN IF M.m % 2 = 0 THEN c ELSE Neg(R, c)
Det(R, M) == IF IsZ(R) THEN DetZ(R, M) ELSE DetF(R, M)
RECURSIVE PolyMul(_, _, _)
PolyMul(R, a, b) ==
  LET A == [m |-> 1, n |-> Len(a), e |-> a]
      T == Mk(Len(a), Len(a) + Len(b) - 1,
              LAMBDA i, j : IF j - i + 1 \in 1..Len(b) THEN b[j - i + 1] ELSE Zero(R))
  IN MM(R, A, T).e
(* monic polynomial of least degree annihilating the sequence of vectors   *)
(* v, Av, A^2 v ... (columns): first linear dependency.                    *)
RECURSIVE PowVec(_, _, _, _)
PowVec(R, A, V, d) == IF d = 0 THEN V ELSE MM(R, A, PowVec(R, A, V, d - 1))
RECURSIVE KryMat(_, _, _, _)
KryMat(R, A, V, d) ==   \* (d+1) x (len) matrix, row k+1 = entries of A^k V
  IF d = 0 THEN [m |-> 1, n |-> Len(V.e), e |-> V.e]
  ELSE LET K == KryMat(R, A, V, d - 1)
           W == PowVec(R, A, V, d)
       IN [m |-> d + 1, n |-> K.n, e |-> K.e \o W.e]
AnnihDeg(R, A, V) ==
  CHOOSE d \in 0..A.m : /\ Rank(R, KryMat(R, A, V, d)) = d
                        /\ \A c \in 0..(d - 1) : Rank(R, KryMat(R, A, V, c)) = c + 1
(* P (lowest degree first, monic, degree d) is the minimal polynomial of A on V *)
EvalOn(R, P, A, V) ==
  LET d == Len(P) - 1
      K == KryMat(R, A, V, d)
  IN MM(R, [m |-> 1, n |-> d + 1, e |-> P], K).e
IsMinPolyOn(R, P, A, V) ==
  /\ Len(P) >= 1
  /\ P[Len(P)] = One(R)
  /\ Len(P) - 1 <= A.m
  /\ Len(P) - 1 = AnnihDeg(R, A, V)
  /\ \A x \in 1..Len(V.e) : EvalOn(R, P, A, V)[x] = Zero(R)
=============================================================================
