------------------------------- MODULE Ffpack ------------------------------
(***************************************************************************)
(* FFPACK: eliminations, rank profiles, echelon forms, solutions,          *)
(* polynomials and permutations, as actions on the client's memory.        *)
(* Index arrays (permutations, pivot lists) are 0-based in memory as in    *)
(* the library; the specification converts them to 1-based sequences.      *)
(***************************************************************************)
EXTENDS Fflas
(* p >= 2^30: Monte Carlo answers are exact up to a negligible probability *)
Huge(R) == R.wide /\ Len(R.p) >= 4

(* index array operand *)
IOpd(e, mem, k, n) == LET d == e.a[k] IN [i \in 1..n |-> mem[d.b][d.o + i]]
IPut(e, mem, k, s) ==
  LET d == e.a[k]
  IN [mem EXCEPT ![d.b] = [x \in DOMAIN mem[d.b] |-> IF x > d.o /\ x <= d.o + Len(s) THEN s[x - d.o] ELSE mem[d.b][x]]]
(* only buffers of ks (and there only the described window) may differ *)
MatOnly(e, pre, post, k, m, n) == PutOpd(e, pre, k, Opd(e, post, k, m, n))
Up1(s) == [i \in DOMAIN s |-> s[i] + 1]
Dn1(s) == [i \in DOMAIN s |-> s[i] - 1]

(* the permutation denoted by the first k transpositions of a LAPACK array *)
LapK(P, k, n) == LapMath([i \in 1..n |-> IF i <= k THEN P[i] ELSE i - 1], n)
IsLapK(P, k, n) == \A i \in 1..k : P[i] >= i - 1 /\ P[i] < n

LowPart(R, X, m, r, unit) ==     \* m x r unit or not lower trapezoid of the compact storage
  Mk(m, r, LAMBDA i, j : IF i = j THEN (IF unit THEN One(R) ELSE At(X, i, j)) ELSE IF i > j THEN At(X, i, j) ELSE Zero(R))
UpPart(R, X, r, n, unit) ==
  Mk(r, n, LAMBDA i, j : IF i = j THEN (IF unit THEN One(R) ELSE At(X, i, j)) ELSE IF i < j THEN At(X, i, j) ELSE Zero(R))
(* column echelon form with pivot rows q (1-based), pivots 1 if unit *)
CEch(R, X, m, r, q, unit) ==
  Mk(m, r, LAMBDA i, j : IF i = q[j] THEN (IF unit THEN One(R) ELSE At(X, i, j)) ELSE IF i > q[j] THEN At(X, i, j) ELSE Zero(R))
REch(R, X, r, n, q, unit) ==
  Mk(r, n, LAMBDA i, j : IF j = q[i] THEN (IF unit THEN One(R) ELSE At(X, i, j)) ELSE IF j > q[i] THEN At(X, i, j) ELSE Zero(R))
Inc(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]

(* ------------------------------ PLUQ / LU ------------------------------ *)
(* A = Pt^T L U Q: gathering the rows of A by Pt and its columns by Q      *)
(* gives L U.  unit: U has a unit diagonal, else L has.                    *)
IsPLUQ(R, A, X, r, P, Q, unit) ==
  /\ r \in 0..NMin(A.m, A.n)
  /\ IsLap(P, A.m) /\ IsLap(Q, A.n)
  /\ RowG(ColG(A, LapMath(Q, A.n)), LapMath(P, A.m)) = MM(R, LowPart(R, X, A.m, r, ~unit), UpPart(R, X, r, A.n, unit))
  /\ \A k \in 1..r : Res(R, At(X, k, k)) # Res(R, Zero(R))
Reveals(R, A, r, P, Q) ==
  LET s == LapMath(P, A.m)
      t == LapMath(Q, A.n)
      rp == RPM(R, A)
  IN \A k \in 1..r : rp[s[k]] = t[k]
Pluq(e, pre, post) ==
  LET A == OpdMN(e, pre, "A")
      X == OpdMN(e, post, "A")
      P == IOpd(e, post, "P", e.a.m)
      Q == IOpd(e, post, "Q", e.a.n)
  IN /\ post = IPut(e, IPut(e, PutOpd(e, pre, "A", X), "P", P), "Q", Q)
     /\ e.ret = Rank(e.R, A)
     /\ CanonM(e.R, X)
     /\ IsPLUQ(e.R, A, X, e.ret, P, Q, e.a.unit)
     /\ e.a.reveal => Reveals(e.R, A, e.ret, P, Q)
(* CUP (ta = FALSE): A = C U P;  PLE (ta = TRUE): A = P L E                *)
Ludivine(e, pre, post) ==
  LET m == e.a.m  n == e.a.n  r == e.ret
      A == OpdMN(e, pre, "A")
      X == OpdMN(e, post, "A")
      lp == IF e.a.ta THEN m ELSE n
      lq == IF e.a.ta THEN n ELSE m
      P == IOpd(e, post, "P", lp)
      Q == IOpd(e, post, "Q", lq)
      q == [i \in 1..r |-> Q[i] + 1]
      s == PInv(LapK(P, r, lp))
  IN /\ post = IPut(e, IPut(e, PutOpd(e, pre, "A", X), "P", P), "Q", Q)
     /\ r = Rank(e.R, A)
     /\ CanonM(e.R, X)
     /\ IsLapK(P, r, lp)
     /\ q = (IF e.a.ta THEN CRP(e.R, A) ELSE RRP(e.R, A))
     /\ IF e.a.ta
        THEN A = MM(e.R, RowG(LowPart(e.R, X, m, r, e.a.unit), s), REch(e.R, X, r, n, q, ~e.a.unit))
        ELSE A = MM(e.R, CEch(e.R, X, m, r, q, ~e.a.unit), ColG(UpPart(e.R, X, r, n, e.a.unit), s))

(* extraction of a triangular factor from the packed elimination           *)
GetTri(e, pre, post) ==
  LET m == e.a.m  n == e.a.n  r == e.a.r
      X == OpdMN(e, pre, "A")
      full == IF e.a.up THEN Mk(m, n, LAMBDA i, j : IF i > r \/ j < i THEN Zero(e.R) ELSE IF i = j /\ e.a.unit THEN One(e.R) ELSE At(X, i, j))
              ELSE Mk(m, n, LAMBDA i, j : IF j > r \/ j > i THEN Zero(e.R) ELSE IF i = j /\ e.a.unit THEN One(e.R) ELSE At(X, i, j))
      part == IF e.a.only /\ ~e.a.inpl THEN (IF e.a.up THEN Sub4(full, 0, 0, r, n) ELSE Sub4(full, 0, 0, m, r)) ELSE full
  IN post = PutOpd(e, pre, "T", part)
(* inverse of the full rank minor selected by a CUP elimination            *)
LqupInv(e, pre, post) ==
  LET m == e.a.m  n == e.a.n  r == e.a.r
      A == [m |-> m, n |-> n, e |-> e.a.orig]
      cols == LapK(e.a.P, r, n)
      rows == RRP(e.R, A)
      Mn == Mk(r, r, LAMBDA i, j : At(A, rows[i], cols[j]))
      X == Opd(e, post, "X", r, r)
  IN /\ post = PutOpd(e, MatOnly(e, pre, post, "A", m, n), "X", X)
     /\ Len(rows) = r /\ CanonM(e.R, X) /\ MM(e.R, X, Mn) = Id(e.R, r)

(* ---------------------------- rank profiles ---------------------------- *)
Pick2(A, rows, cols) == Mk(Len(rows), Len(cols), LAMBDA i, j : At(A, rows[i], cols[j]))
RankProfile(e, pre, post) ==
  LET A == OpdMN(e, pre, "A")
  IN /\ post = MatOnly(e, pre, post, "A", e.a.m, e.a.n)
     /\ e.ret.rank = Len(e.ret.rp)
     /\ Up1(e.ret.rp) = (IF e.a.row THEN RRP(e.R, A) ELSE CRP(e.R, A))
(* elimination followed by the extraction of every leading submatrix'      *)
(* profiles; e.ret.ls is a sequence of [m, n, rank, rrp, crp]              *)
LeadingProfiles(e, pre, post) ==
  LET A == OpdMN(e, pre, "A")
      rp == RPM(e.R, A)
      Rs(a, b) == {i \in 1..a : rp[i] # 0 /\ rp[i] <= b}
  IN /\ post = MatOnly(e, pre, post, "A", e.a.m, e.a.n)
     /\ e.ret.rank = NonZ(rp)
     /\ \A x \in DOMAIN e.ret.ls :
          LET z == e.ret.ls[x]
          IN /\ z.rank = Cardinality(Rs(z.m, z.n))
             /\ Up1(z.rrp) = SortSet(Rs(z.m, z.n))
             /\ Up1(z.crp) = SortSet({rp[i] : i \in Rs(z.m, z.n)})
(* (spec-level fact used above: the profiles of a leading submatrix are    *)
(* read off the rank profile matrix; checked in model Mat_MC.)             *)
RPSubIdx(e, pre, post) ==
  LET A == OpdMN(e, pre, "A")
      rows == Up1(e.ret.rows)
      cols == Up1(e.ret.cols)
      r == e.ret.rank
  IN /\ post = MatOnly(e, pre, post, "A", e.a.m, e.a.n)
     /\ r = Rank(e.R, A) /\ Len(rows) = r /\ Len(cols) = r
     /\ (IF e.a.row THEN rows = RRP(e.R, A) ELSE cols = CRP(e.R, A))
     /\ \A i \in 1..r : rows[i] \in 1..e.a.m /\ cols[i] \in 1..e.a.n
     /\ Rank(e.R, Pick2(A, rows, cols)) = r
RPSub(e, pre, post) ==         \* X: r x r, the rank-profile rows (columns) of A restricted to some r columns (rows)
  LET A == OpdMN(e, pre, "A")
      r == e.ret.rank
      X == [m |-> r, n |-> r, e |-> e.ret.X]
      p == IF e.a.row THEN RRP(e.R, A) ELSE CRP(e.R, A)
  IN /\ post = pre
     /\ r = Len(p) /\ Len(e.ret.X) = r * r
     /\ Rank(e.R, X) = r
     /\ \A j \in 1..r :
          IF e.a.row THEN \E c \in 1..e.a.n : \A i \in 1..r : At(X, i, j) = At(A, p[i], c)
          ELSE \E c \in 1..e.a.m : \A i \in 1..r : At(X, j, i) = At(A, c, p[i])

(* ---------------------------- echelon forms ---------------------------- *)
ZeroRows(R, E, r) == \A i \in (r + 1)..E.m : \A j \in 1..E.n : Res(R, At(E, i, j)) = Res(R, Zero(R))
RowEchelonShape(R, E, r, q) ==
  /\ Inc(q) /\ ZeroRows(R, E, r)
  /\ \A i \in 1..r : /\ At(E, i, q[i]) # Zero(R)
                     /\ \A j \in 1..(q[i] - 1) : At(E, i, j) = Zero(R)
PadRref(R, A) == LET F == Rref(R, A) IN Mk(A.m, A.n, LAMBDA i, j : IF i <= F.m THEN At(F, i, j) ELSE Zero(R))
(* E, T: what the accessors extract from the packed result (transposed for *)
(* the column variants so that one definition serves both).                *)
EchelonOK(R, A, r, q, E, hasT, T, reduced, unitpiv) ==
  /\ CanonM(R, E)
  /\ r = Rank(R, A)
  /\ q = CRP(R, A)
  /\ RowEchelonShape(R, E, r, q)
  /\ unitpiv => \A i \in 1..r : At(E, i, q[i]) = One(R)
  /\ IF reduced THEN E = PadRref(R, A) ELSE Rref(R, E) = Rref(R, A)
  /\ hasT => /\ CanonM(R, T)
             /\ Rank(R, T) = A.m
             /\ MM(R, T, A) = E
Echelon(e, pre, post) ==
  LET m == e.a.m  n == e.a.n
      A == OpdMN(e, pre, "A")
      E == OpdMN(e, post, "E")
      dim == IF e.a.row THEN m ELSE n
      T == Opd(e, post, "T", dim, dim)
      r == e.ret.rank
  IN /\ post = (IF e.a.tr THEN PutOpd(e, PutOpd(e, MatOnly(e, pre, post, "A", m, n), "E", E), "T", T)
                ELSE PutOpd(e, MatOnly(e, pre, post, "A", m, n), "E", E))
     /\ IF e.a.row
        THEN EchelonOK(e.R, A, r, Up1(e.ret.piv), E, e.a.tr, T, e.a.red, TRUE)
        ELSE EchelonOK(e.R, Tr(A), r, Up1(e.ret.piv), Tr(E), e.a.tr, Tr(T), e.a.red, TRUE)
     /\ e.a.only => \A i \in 1..m : \A j \in 1..n :     \* extraction of the non zero vectors only agrees
          (IF e.a.row THEN i <= r ELSE j <= r) =>
             e.ret.O[IF e.a.row THEN (i - 1) * n + j ELSE (i - 1) * r + j] = At(E, i, j)
     /\ e.a.only => e.ret.g
     /\ e.a.inpl => e.ret.I = E.e                         \* in-place accessor agrees

(* ---------------------- rank, determinant, inverse --------------------- *)
RankDet(e, pre, post) ==
  LET A == OpdMN(e, pre, "A")
  IN /\ post = MatOnly(e, pre, post, "A", e.a.m, e.a.n)
     /\ CASE e.op = "rank" -> e.ret = Rank(e.R, A)
          [] e.op = "issingular" -> e.ret = ~(e.a.m = e.a.n /\ Rank(e.R, A) = e.a.m)
          [] e.op = "det" -> e.ret = Det(e.R, A)
Invert(e, pre, post) ==      \* form 0: in place, 1: out of place (A preserved), 2: Invert2 (A destroyed)
  LET n == e.a.n
      A == Opd(e, pre, "A", n, n)
      out == IF e.a.form = 0 THEN "A" ELSE "X"
      X == Opd(e, post, out, n, n)
      nul == n - Rank(e.R, A)
      p1 == IF e.a.form = 1 THEN pre ELSE MatOnly(e, pre, post, "A", n, n)
  IN /\ post = (IF e.a.form = 0 THEN p1 ELSE PutOpd(e, p1, "X", X))
     /\ e.ret = nul
     /\ (e.a.form = 2 /\ nul > 0) => post["X"] = pre["X"]
     /\ nul = 0 => CanonM(e.R, X) /\ MM(e.R, A, X) = Id(e.R, n)

(* ------------------------ systems and nullspaces ----------------------- *)
(* op(A) X = B (left) or X op(A) = B (right); sol: the matrix returned     *)
HCat(A, B) == Mk(A.m, A.n + B.n, LAMBDA i, j : IF j <= A.n THEN At(A, i, j) ELSE At(B, i, j - A.n))
Consistent(R, A, B) == Rank(R, HCat(A, B)) = Rank(R, A)
SolveOK(R, left, A, X, B) == IF left THEN MM(R, A, X) = B ELSE MM(R, X, A) = B
SolveCons(R, left, A, B) == IF left THEN Consistent(R, A, B) ELSE Consistent(R, Tr(A), Tr(B))
(* in place, square A: B becomes the solution; fgesv factors A in place,   *)
(* fgetrs gets the factors (a.fact) and leaves them unchanged              *)
SysInPlace(e, pre, post) ==
  LET N == IF e.a.left THEN e.a.m ELSE e.a.n
      A == IF e.op = "fgetrs" THEN [m |-> N, n |-> N, e |-> e.a.orig] ELSE Opd(e, pre, "A", N, N)
      B == Opd(e, pre, "B", e.a.m, e.a.n)
      X == Opd(e, post, "B", e.a.m, e.a.n)
  IN /\ post = PutOpd(e, IF e.op = "fgetrs" THEN pre ELSE MatOnly(e, pre, post, "A", N, N), "B", X)
     /\ (e.ret.info = 0) = SolveCons(e.R, e.a.left, A, B)
     /\ e.ret.rank = Rank(e.R, A)
     /\ e.ret.info = 0 => CanonM(e.R, X) /\ SolveOK(e.R, e.a.left, A, X, B)
SysOut(e, pre, post) ==        \* A m x n; left: X n x k, B m x k; right: X k x m, B k x n
  LET m == e.a.m  n == e.a.n  k == e.a.k
      A == IF e.op = "fgetrs2" THEN [m |-> m, n |-> n, e |-> e.a.orig] ELSE OpdMN(e, pre, "A")
      B == IF e.a.left THEN Opd(e, pre, "B", m, k) ELSE Opd(e, pre, "B", k, n)
      X == IF e.a.left THEN Opd(e, post, "X", n, k) ELSE Opd(e, post, "X", k, m)
  IN /\ post = PutOpd(e, IF e.op = "fgetrs2" THEN pre ELSE MatOnly(e, pre, post, "A", m, n), "X", X)
     /\ (e.ret.info = 0) = SolveCons(e.R, e.a.left, A, B)
     /\ e.ret.rank = Rank(e.R, A)
     /\ e.ret.info = 0 => CanonM(e.R, X) /\ SolveOK(e.R, e.a.left, A, X, B)
SolveVec(e, pre, post) ==      \* non singular square A
  LET n == e.a.n
      A == Opd(e, pre, "A", n, n)
      b == Opd(e, pre, "b", n, 1)
      x == Opd(e, post, "x", n, 1)
  IN /\ post = PutOpd(e, MatOnly(e, pre, post, "A", n, n), "x", x)
     /\ Rank(e.R, A) = n => CanonM(e.R, x) /\ MM(e.R, A, x) = b
(* L: r columns of a unit lower triangular matrix, in column echelon form  *)
(* with pivot rows q; the others are columns of the identity               *)
FullL(R, L, N, r, q) ==
  Mk(N, N, LAMBDA i, j : IF i = j THEN One(R) ELSE IF i < j THEN Zero(R)
        ELSE IF \E k \in 1..r : q[k] = j THEN At(L, i, CHOOSE k \in 1..r : q[k] = j) ELSE Zero(R))
SolveLB(e, pre, post) ==
  LET N == IF e.a.left THEN e.a.m ELSE e.a.n
      L == Opd(e, pre, "L", N, N)
      B == Opd(e, pre, "B", e.a.m, e.a.n)
      X == Opd(e, post, "B", e.a.m, e.a.n)
      F == FullL(e.R, L, N, e.a.r, Up1(e.a.q))
  IN /\ IF e.a.form = 1 THEN post["L"] = pre["L"] ELSE MatOnly(e, pre, post, "L", N, N)["L"] = post["L"]     \* L may be expanded in place
     /\ PutOpd(e, pre, "B", X)["B"] = post["B"]
     /\ CanonM(e.R, X)
     /\ SolveOK(e.R, e.a.left, F, X, B)
NullBasis(e, pre, post) ==     \* ret: dim, NS (right: n x dim, left: dim x m)
  LET A == OpdMN(e, pre, "A")
      d == e.ret.dim
      N == IF e.a.left THEN [m |-> d, n |-> e.a.m, e |-> e.ret.NS] ELSE [m |-> e.a.n, n |-> d, e |-> e.ret.NS]
      full == IF e.a.left THEN e.a.m ELSE e.a.n
  IN /\ post = MatOnly(e, pre, post, "A", e.a.m, e.a.n)
     /\ d = full - Rank(e.R, A)
     /\ Len(e.ret.NS) = d * full
     /\ CanonM(e.R, N)
     /\ d > 0 => /\ Rank(e.R, N) = d
                 /\ IF e.a.left THEN MM(e.R, N, A) = ZeroM(e.R, d, e.a.n) ELSE MM(e.R, A, N) = ZeroM(e.R, e.a.m, d)
NullVec(e, pre, post) ==
  LET A == OpdMN(e, pre, "A")
      len == IF e.a.left THEN e.a.m ELSE e.a.n
      x == Opd(e, post, "x", len, 1)
  IN /\ post = PutOpd(e, MatOnly(e, pre, post, "A", e.a.m, e.a.n), "x", x)
     /\ CanonM(e.R, x)
     /\ (Huge(e.R) /\ Rank(e.R, A) < len) => x # ZeroM(e.R, len, 1)    \* probability of a zero vector at most 2^-30
     /\ IF e.a.left THEN MM(e.R, Tr(A), x) = ZeroM(e.R, e.a.n, 1) ELSE MM(e.R, A, x) = ZeroM(e.R, e.a.m, 1)

(* ------------------------------ polynomials ---------------------------- *)
RECURSIVE ProdPoly(_, _, _)
ProdPoly(R, ps, i) == IF i > Len(ps) THEN <<One(R)>> ELSE PolyMul(R, ps[i], ProdPoly(R, ps, i + 1))
Charpoly(e, pre, post) ==      \* ret: sequence of factors
  LET n == e.a.n
      A == Opd(e, pre, "A", n, n)
  IN /\ post = MatOnly(e, pre, post, "A", n, n)
     /\ \A i \in DOMAIN e.ret : Len(e.ret[i]) >= 1 /\ e.ret[i][Len(e.ret[i])] = One(e.R)
     /\ \A i \in DOMAIN e.ret : \A j \in DOMAIN e.ret[i] : IsCanon(e.R, e.ret[i][j])
     /\ ProdPoly(e.R, e.ret, 1) = CharPoly(e.R, A)
Minpoly(e, pre, post) ==
  LET n == e.a.n
      A == Opd(e, pre, "A", n, n)
      I == Id(e.R, n)
      mu == AnnihDeg(e.R, A, I)               \* degree of the minimal polynomial of A
      d == Len(e.ret) - 1
      PA == [m |-> n, n |-> n, e |-> EvalOn(e.R, e.ret, A, I)]
  IN (* Monte Carlo: always a non trivial divisor of the minimal polynomial, *)
     (* and the minimal polynomial itself with overwhelming probability on   *)
     (* a large field: (mu / P)(A) kills P(A), and nothing smaller does.     *)
     /\ post = pre
     /\ d >= 0 /\ d <= n /\ (n > 0 => d >= 1)
     /\ \A i \in DOMAIN e.ret : IsCanon(e.R, e.ret[i])
     /\ e.ret[d + 1] = One(e.R)
     /\ d <= mu
     /\ IF Huge(e.R) THEN d = mu /\ CanM(e.R, PA) = ZeroM(e.R, n, n)
        ELSE AnnihDeg(e.R, A, PA) = mu - d
MatVecMinpoly(e, pre, post) ==
  LET n == e.a.n
      A == Opd(e, pre, "A", n, n)
      v == Opd(e, pre, "v", n, 1)
  IN post = pre /\ IsMinPolyOn(e.R, e.ret, A, v)

LuOps == {"pluq", "gettri", "lqupinv", "ludivine", "rankprofile", "leadingprofiles", "rpsubidx", "rpsub", "echelon"}
LuAllowed(e, pre, post) ==
  CASE e.op = "pluq" -> Pluq(e, pre, post)
    [] e.op = "ludivine" -> Ludivine(e, pre, post)
    [] e.op = "gettri" -> GetTri(e, pre, post)
    [] e.op = "lqupinv" -> LqupInv(e, pre, post)
    [] e.op = "rankprofile" -> RankProfile(e, pre, post)
    [] e.op = "leadingprofiles" -> LeadingProfiles(e, pre, post)
    [] e.op = "rpsubidx" -> RPSubIdx(e, pre, post)
    [] e.op = "rpsub" -> RPSub(e, pre, post)
    [] e.op = "echelon" -> Echelon(e, pre, post)
SolOps == {"rank", "issingular", "det", "invert", "fgesv", "fgetrs", "fgesv2", "fgetrs2", "solve", "solvelb", "nullbasis", "nullvec",
           "charpoly", "minpoly", "mvminpoly"}
SolAllowed(e, pre, post) ==
  CASE e.op \in {"rank", "issingular", "det"} -> RankDet(e, pre, post)
    [] e.op = "invert" -> Invert(e, pre, post)
    [] e.op \in {"fgesv", "fgetrs"} -> SysInPlace(e, pre, post)
    [] e.op \in {"fgesv2", "fgetrs2"} -> SysOut(e, pre, post)
    [] e.op = "solve" -> SolveVec(e, pre, post)
    [] e.op = "solvelb" -> SolveLB(e, pre, post)
    [] e.op = "nullbasis" -> NullBasis(e, pre, post)
    [] e.op = "nullvec" -> NullVec(e, pre, post)
    [] e.op = "charpoly" -> Charpoly(e, pre, post)
    [] e.op = "minpoly" -> Minpoly(e, pre, post)
    [] e.op = "mvminpoly" -> MatVecMinpoly(e, pre, post)
=============================================================================
