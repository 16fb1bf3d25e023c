------------------------------- MODULE Fflas -------------------------------
(***************************************************************************)
(* FFLAS: the system state is the client's memory `mem', a record of named *)
(* buffers.  Every routine is an action that maps the memory before the    *)
(* call to the memory after it.  Because Put/VPut keep every location that *)
(* is not addressed, each action contains its frame condition: operands,   *)
(* padding between rows and guard zones around each buffer are unchanged.  *)
(* e.R is the ring, e.a the arguments of the call.                         *)
(***************************************************************************)
EXTENDS Mat

(* Operand descriptors: a.X = [b, o, ld] says that matrix (or strided      *)
(* vector: n = 1, ld = stride) X lies in buffer b at offset o.             *)
Opd(e, pre, k, m, n) == LET d == e.a[k] IN View(pre[d.b], d.o, d.ld, m, n)
OpdMN(e, pre, k) == Opd(e, pre, k, e.a.m, e.a.n)
PutOpd(e, mem, k, M) == LET d == e.a[k] IN [mem EXCEPT ![d.b] = Put(mem[d.b], d.o, d.ld, M)]

(* ----------------- element-wise and data movement routines ------------- *)
MinusOne(R) == OfInt(R, -1)
Freduce(e, pre)  == PutOpd(e, pre, "C", CanM(e.R, OpdMN(e, pre, "A")))        \* freduce, finit
FreduceTri(e, pre) ==
  LET A == OpdMN(e, pre, "A") IN PutOpd(e, pre, "A", PutTri(A, CanM(e.R, A), e.a.up, FALSE))
Fassign(e, pre)  == PutOpd(e, pre, "C", OpdMN(e, pre, "A"))                   \* fassign, fconvert
Fneg(e, pre, k)  == PutOpd(e, pre, k, Scal(e.R, MinusOne(e.R), OpdMN(e, pre, "A")))
Fscal(e, pre, k) == PutOpd(e, pre, k, Scal(e.R, e.a.alpha, OpdMN(e, pre, "A")))
Fzero(e, pre)    == PutOpd(e, pre, "A", ZeroM(e.R, e.a.m, e.a.n))
(* triangular shapes, 1-based (i, j), order n; unit: diagonal excluded *)
InShape(sh, unit, n, i, j) ==
  CASE sh = "U"  -> IF unit THEN i < j ELSE i <= j
    [] sh = "L"  -> IF unit THEN i > j ELSE i >= j
    [] sh = "LT" -> IF unit THEN i + j < n + 1 ELSE i + j <= n + 1
    [] sh = "RT" -> IF unit THEN i + j > n + 1 ELSE i + j >= n + 1
FzeroTri(e, pre) ==
  LET n == e.a.n
      A == Opd(e, pre, "A", n, n)
  IN PutOpd(e, pre, "A", Mk(n, n, LAMBDA i, j : IF InShape(e.a.shape, e.a.unit, n, i, j) THEN Zero(e.R) ELSE At(A, i, j)))
FiszeroRet(e, pre) == CanM(e.R, OpdMN(e, pre, "A")) = ZeroM(e.R, e.a.m, e.a.n)
FequalRet(e, pre)  == OpdMN(e, pre, "A") = OpdMN(e, pre, "B")
Fidentity(e, pre, d) ==
  PutOpd(e, pre, "A", Mk(e.a.m, e.a.n, LAMBDA i, j : IF i = j THEN d ELSE Zero(e.R)))
(* C <- x A + y B *)
Comb(e, pre, x, ka, y, kb, kc) == PutOpd(e, pre, kc, Lin(e.R, x, OpdMN(e, pre, ka), y, OpdMN(e, pre, kb)))
Faxpy(e, pre)  == Comb(e, pre, e.a.alpha, "A", One(e.R), "C", "C")
Faddin(e, pre) == Comb(e, pre, One(e.R), "A", One(e.R), "C", "C")
Fsubin(e, pre) == Comb(e, pre, MinusOne(e.R), "A", One(e.R), "C", "C")
Fadd(e, pre)   == Comb(e, pre, One(e.R), "A", One(e.R), "B", "C")
Fsub(e, pre)   == Comb(e, pre, One(e.R), "A", MinusOne(e.R), "B", "C")
Faddx(e, pre)  == Comb(e, pre, One(e.R), "A", e.a.alpha, "B", "C")
FaddinTri(e, pre) ==
  LET n == e.a.n
      A == Opd(e, pre, "A", n, n)
      C == Opd(e, pre, "C", n, n)
  IN PutOpd(e, pre, "C", PutTri(C, Lin(e.R, One(e.R), A, One(e.R), C), e.a.up, FALSE))
FdotRet(e, pre) == MM(e.R, Tr(OpdMN(e, pre, "A")), OpdMN(e, pre, "B")).e[1]
Fswap(e, pre) == PutOpd(e, PutOpd(e, pre, "A", OpdMN(e, pre, "B")), "B", OpdMN(e, pre, "A"))
Fmove(e, pre) == PutOpd(e, PutOpd(e, pre, "A", OpdMN(e, pre, "B")), "B", ZeroM(e.R, e.a.m, e.a.n))
Ftranspose(e, pre) == PutOpd(e, pre, "C", Tr(OpdMN(e, pre, "A")))

L1Ops == {"freduce", "freduce_tri", "fassign", "fneg", "fnegin", "fscal", "fscalin", "fzero", "fzero_tri", "fiszero", "fequal",
          "fidentity", "fidentity1", "faxpy", "faddin", "fsubin", "fadd", "fsub", "faddx", "faddin_tri", "fdot", "fswap",
          "fmove", "ftranspose", "pfadd", "pfsub", "pfaddin", "pfsubin"}
L1Allowed(e, pre, post) ==
  CASE e.op = "freduce" -> post = Freduce(e, pre)
    [] e.op = "freduce_tri" -> post = FreduceTri(e, pre)
    [] e.op = "fassign" -> post = Fassign(e, pre)
    [] e.op = "fneg"    -> post = Fneg(e, pre, "C")
    [] e.op = "fnegin"  -> post = Fneg(e, pre, "A")
    [] e.op = "fscal"   -> post = Fscal(e, pre, "C")
    [] e.op = "fscalin" -> post = Fscal(e, pre, "A")
    [] e.op = "fzero"   -> post = Fzero(e, pre)
    [] e.op = "fzero_tri" -> post = FzeroTri(e, pre)
    [] e.op = "fiszero" -> post = pre /\ e.ret = FiszeroRet(e, pre)
    [] e.op = "fequal"  -> post = pre /\ e.ret = FequalRet(e, pre)
    [] e.op = "fidentity"  -> post = Fidentity(e, pre, e.a.alpha)
    [] e.op = "fidentity1" -> post = Fidentity(e, pre, One(e.R))
    [] e.op = "faxpy"   -> post = Faxpy(e, pre)
    [] e.op \in {"faddin", "pfaddin"} -> post = Faddin(e, pre)
    [] e.op \in {"fsubin", "pfsubin"} -> post = Fsubin(e, pre)
    [] e.op \in {"fadd", "pfadd"}     -> post = Fadd(e, pre)
    [] e.op \in {"fsub", "pfsub"}     -> post = Fsub(e, pre)
    [] e.op = "faddx"   -> post = Faddx(e, pre)
    [] e.op = "faddin_tri" -> post = FaddinTri(e, pre)
    [] e.op = "fdot"    -> post = pre /\ e.ret = FdotRet(e, pre)
    [] e.op = "fswap"   -> post = Fswap(e, pre)
    [] e.op = "fmove"   -> post = Fmove(e, pre)
    [] e.op = "ftranspose" -> post = Ftranspose(e, pre)

(* ------------------------------- level 3 ------------------------------- *)
GemmRes(R, al, A, B, be, C) == Lin(R, al, MM(R, A, B), be, C)

Fgemm(e, pre) ==
  LET a == e.a
      A == View(pre.A, a.oa, a.lda, IF a.ta THEN a.k ELSE a.m, IF a.ta THEN a.m ELSE a.k)
      B == View(pre.B, a.ob, a.ldb, IF a.tb THEN a.n ELSE a.k, IF a.tb THEN a.k ELSE a.n)
      C == View(pre.C, a.oc, a.ldc, a.m, a.n)
  IN [pre EXCEPT !.C = Put(pre.C, a.oc, a.ldc, GemmRes(e.R, a.alpha, Op(a.ta, A), Op(a.tb, B), a.beta, C))]

Fsquare(e, pre) ==
  LET a == e.a
      A == Op(a.ta, View(pre.A, a.oa, a.lda, a.n, a.n))
      C == IF a.ip THEN View(pre.A, a.oa, a.lda, a.n, a.n) ELSE View(pre.C, a.oc, a.ldc, a.n, a.n)
      X == GemmRes(e.R, a.alpha, A, A, a.beta, C)
  IN IF a.ip THEN [pre EXCEPT !.A = Put(pre.A, a.oa, a.lda, X)]
     ELSE [pre EXCEPT !.C = Put(pre.C, a.oc, a.ldc, X)]

(* ------------------------------- level 2 ------------------------------- *)
Fgemv(e, pre) ==
  LET a == e.a
      A == Op(a.ta, Opd(e, pre, "A", a.m, a.n))
      X == Opd(e, pre, "X", A.n, 1)
      Y == Opd(e, pre, "Y", A.m, 1)
  IN PutOpd(e, pre, "Y", GemmRes(e.R, a.alpha, A, X, a.beta, Y))
Fger(e, pre) ==
  LET a == e.a
      X == Opd(e, pre, "X", a.m, 1)
      Y == Opd(e, pre, "Y", a.n, 1)
  IN PutOpd(e, pre, "A", GemmRes(e.R, a.alpha, X, Tr(Y), One(e.R), Opd(e, pre, "A", a.m, a.n)))
(* op(triangular part of operand k, order n) *)
TriOp(e, pre, k, n) == Op(e.a.ta, TriM(e.R, Opd(e, pre, k, n, n), e.a.up, e.a.unit))
(* Solving routines are specified by the equation their result satisfies:  *)
(* the triangular matrix is invertible so the equation has one solution.   *)
Ftrsv(e, pre, post) ==
  LET X == Opd(e, post, "X", e.a.n, 1)
  IN /\ post = PutOpd(e, pre, "X", X)
     /\ CanonM(e.R, X)
     /\ MM(e.R, TriOp(e, pre, "A", e.a.n), X) = Opd(e, pre, "X", e.a.n, 1)
Ftrmv(e, pre) == PutOpd(e, pre, "X", MM(e.R, TriOp(e, pre, "A", e.a.n), Opd(e, pre, "X", e.a.n, 1)))
L2Ops == {"fgemv", "fger", "ftrsv", "ftrmv"}
L2Allowed(e, pre, post) ==
  CASE e.op = "fgemv" -> post = Fgemv(e, pre) /\ e.ret = TRUE      \* ret: the result pointer is Y
    [] e.op = "fger"  -> post = Fger(e, pre)
    [] e.op = "ftrsv" -> Ftrsv(e, pre, post)
    [] e.op = "ftrmv" -> post = Ftrmv(e, pre)

(* --------------------------- triangular level 3 ------------------------ *)
SideMul(R, left, T, X) == IF left THEN MM(R, T, X) ELSE MM(R, X, T)
TriDim(e) == IF e.a.left THEN e.a.m ELSE e.a.n
Ftrsm(e, pre, post) ==
  LET X == OpdMN(e, post, "B")
  IN /\ post = PutOpd(e, pre, "B", X)
     /\ CanonM(e.R, X)
     /\ SideMul(e.R, e.a.left, TriOp(e, pre, "A", TriDim(e)), X) = Scal(e.R, e.a.alpha, OpdMN(e, pre, "B"))
Ftrmm(e, pre) ==
  PutOpd(e, pre, "B", Scal(e.R, e.a.alpha, SideMul(e.R, e.a.left, TriOp(e, pre, "A", TriDim(e)), OpdMN(e, pre, "B"))))
Ftrmm3(e, pre) ==
  PutOpd(e, pre, "C", Lin(e.R, e.a.alpha, SideMul(e.R, e.a.left, TriOp(e, pre, "A", TriDim(e)), OpdMN(e, pre, "B")),
                          e.a.beta, OpdMN(e, pre, "C")))
(* in place inverse of a triangular matrix; the rest of the storage is kept *)
Ftrtri(e, pre, post) ==
  LET n == e.a.n
      A == Opd(e, pre, "A", n, n)
      X == Opd(e, post, "A", n, n)
  IN /\ post = PutOpd(e, pre, "A", PutTri(A, X, e.a.up, e.a.unit))
     /\ CanonM(e.R, X)
     /\ MM(e.R, TriM(e.R, A, e.a.up, e.a.unit), TriM(e.R, X, e.a.up, e.a.unit)) = Id(e.R, n)
TrinvLeft(e, pre, post) ==
  LET n == e.a.n
      A == Opd(e, pre, "A", n, n)
      X == Opd(e, post, "B", n, n)
  IN /\ post = PutOpd(e, pre, "B", X)
     /\ MM(e.R, TriM(e.R, A, FALSE, TRUE), TriM(e.R, X, FALSE, TRUE)) = Id(e.R, n)
     /\ \A i, j \in 1..n : (i > j => IsCanon(e.R, At(X, i, j))) /\ (i <= j => At(X, i, j) = At(A, i, j))
(* A stores L (lower) and U (upper), U having diagonal kind `unit' and L   *)
(* the opposite one: A <- U L (left) or L U (right)                        *)
Ftrtrm(e, pre) ==
  LET n == e.a.n
      A == Opd(e, pre, "A", n, n)
      U == TriM(e.R, A, TRUE, e.a.unit)
      L == TriM(e.R, A, FALSE, ~e.a.unit)
  IN PutOpd(e, pre, "A", IF e.a.left THEN MM(e.R, U, L) ELSE MM(e.R, L, U))
(* triangular X with A X = B (left) or X A = B (right) *)
Ftrstr(e, pre, post) ==
  LET n == e.a.n
      A == TriM(e.R, Opd(e, pre, "A", n, n), e.a.up, e.a.unit)
      B == Opd(e, pre, "B", n, n)
      X == Opd(e, post, "B", n, n)
      ux == e.a.unit /\ e.a.unitB                 \* then X has an implicit unit diagonal
  IN /\ post = PutOpd(e, pre, "B", PutTri(B, X, e.a.up, ux))
     /\ CanonM(e.R, TriM(e.R, X, e.a.up, ux))
     /\ SideMul(e.R, e.a.left, A, TriM(e.R, X, e.a.up, ux)) = TriM(e.R, B, e.a.up, e.a.unitB)
(* triangular X with A^T X + X^T A = B (upper), A X^T + X A^T = B (lower); *)
(* the opposite strict triangle of B is scratch space (fsyr2k uses it)     *)
Ftrssyr2k(e, pre, post) ==
  LET n == e.a.n
      A == TriM(e.R, Opd(e, pre, "A", n, n), e.a.up, e.a.unit)
      B == Opd(e, pre, "B", n, n)
      X == Opd(e, post, "B", n, n)
      T == TriM(e.R, X, e.a.up, FALSE)
      P == IF e.a.up THEN MM(e.R, Tr(A), T) ELSE MM(e.R, A, Tr(T))
  IN /\ post = PutOpd(e, pre, "B", X)
     /\ CanonM(e.R, T)
     /\ Lin(e.R, One(e.R), P, One(e.R), Tr(P)) = SymM(B, e.a.up)
(* ------------------------------- symmetric ----------------------------- *)
(* The result is the up/low triangle of C; the opposite strict triangle is *)
(* not part of the result (several algorithms use it as scratch space).    *)
SymRes(e, pre, post, E) ==
  LET n == e.a.n
      X == Opd(e, post, "C", n, n)
  IN /\ PutOpd(e, pre, "C", X)[e.a.C.b] = post[e.a.C.b]
     /\ TriM(e.R, X, e.a.up, FALSE) = TriM(e.R, E, e.a.up, FALSE)
OpA(e, pre, k) == Op(e.a.ta, Opd(e, pre, k, IF e.a.ta THEN e.a.k ELSE e.a.n, IF e.a.ta THEN e.a.n ELSE e.a.k))
(* others than C unchanged *)
OnlyC(e, pre, post) == \A b \in DOMAIN pre : b # e.a.C.b => post[b] = pre[b]
Fsyrk(e, pre, post) ==
  LET A == OpA(e, pre, "A")
      C == Opd(e, pre, "C", e.a.n, e.a.n)
  IN OnlyC(e, pre, post) /\ SymRes(e, pre, post, GemmRes(e.R, e.a.alpha, A, Tr(A), e.a.beta, C))
Fsyr2k(e, pre, post) ==
  LET A == OpA(e, pre, "A")
      B == OpA(e, pre, "B")
      C == Opd(e, pre, "C", e.a.n, e.a.n)
      P == MM(e.R, A, Tr(B))
  IN OnlyC(e, pre, post)
     /\ SymRes(e, pre, post, Lin(e.R, e.a.alpha, Lin(e.R, One(e.R), P, One(e.R), Tr(P)), e.a.beta, C))
(* block diagonal scaling: two[i] = TRUE starts a 2x2 anti-diagonal block   *)
BDiag(R, D, two) ==
  Mk(D.m, D.m, LAMBDA i, j : IF i = j THEN (IF two[i] \/ (i > 1 /\ two[i - 1]) THEN Zero(R) ELSE At(D, i, 1))
                             ELSE IF j = i + 1 /\ two[i] THEN At(D, i, 1)
                             ELSE IF i = j + 1 /\ two[j] THEN At(D, j, 1) ELSE Zero(R))
FsyrkD(e, pre, post) ==
  LET A == OpA(e, pre, "A")
      C == Opd(e, pre, "C", e.a.n, e.a.n)
      W == MM(e.R, A, BDiag(e.R, Opd(e, pre, "D", e.a.k, 1), e.a.two))
  IN /\ \A b \in DOMAIN pre : b \notin {e.a.C.b, e.a.A.b} => post[b] = pre[b]
     /\ post[e.a.A.b] = PutOpd(e, pre, "A", Op(e.a.ta, W))[e.a.A.b]
     /\ SymRes(e, pre, post, GemmRes(e.R, e.a.alpha, W, Tr(A), e.a.beta, C))
DiagOf(R, X) == Mk(X.m, X.m, LAMBDA i, j : IF i = j THEN At(X, i, i) ELSE Zero(R))
UtDU(R, up, U, D) == IF up THEN MM(R, MM(R, Tr(U), D), U) ELSE MM(R, MM(R, U, D), Tr(U))
(* succeeds iff all leading minors are non zero *)
Fsytrf(e, pre, post) ==
  LET n == e.a.n
      A == SymM(Opd(e, pre, "A", n, n), e.a.up)
      X == Opd(e, post, "A", n, n)
      r == RPM(e.R, A)
  IN /\ post = PutOpd(e, pre, "A", X)
     /\ e.ret = (\A i \in 1..n : r[i] = i)
     /\ e.ret => /\ CanonM(e.R, TriM(e.R, X, e.a.up, FALSE))
                 /\ UtDU(e.R, e.a.up, TriM(e.R, X, e.a.up, TRUE), DiagOf(e.R, X)) = A
FsytrfNU(e, pre, post) ==
  LET n == e.a.n
      A == SymM(Opd(e, pre, "A", n, n), e.a.up)
      X == Opd(e, post, "A", n, n)
      D == Opd(e, post, "D", n, 1)
      r == RPM(e.R, A)
  IN /\ post = PutOpd(e, PutOpd(e, pre, "A", X), "D", D)
     /\ e.ret = (\A i \in 1..n : r[i] = i)
     /\ e.ret => /\ CanonM(e.R, TriM(e.R, X, e.a.up, FALSE)) /\ CanonM(e.R, D)
                 /\ \A i \in 1..n : Mul(e.R, At(D, i, 1), At(X, i, i)) = One(e.R)
                 /\ UtDU(e.R, e.a.up, TriM(e.R, X, e.a.up, FALSE), Mk(n, n, LAMBDA i, j : IF i = j THEN At(D, i, 1) ELSE Zero(e.R))) = A
(* P: LAPACK permutation (blocks unmarked), a.two marks the 2x2 blocks     *)
FsytrfRPM(e, pre, post) ==
  LET n == e.a.n
      A == SymM(Opd(e, pre, "A", n, n), TRUE)
      X == Opd(e, post, "A", n, n)
      r == e.ret.rank
      P == e.ret.P
      two == e.ret.two
      U == Mk(n, n, LAMBDA i, j : IF i > r THEN Zero(e.R) ELSE IF i = j THEN One(e.R) ELSE IF i < j THEN At(X, i, j) ELSE Zero(e.R))
      BD == BDiag(e.R, Mk(n, 1, LAMBDA x, y : At(X, x, x)), two)
      T == Mk(n, n, LAMBDA i, j : IF i > r \/ j > r THEN Zero(e.R) ELSE At(BD, i, j))
      s == LapMath(P, n)
      rp == RPM(e.R, A)
      partner(i) == IF two[i] THEN i + 1 ELSE IF i > 1 /\ two[i - 1] THEN i - 1 ELSE i
  IN /\ post = PutOpd(e, pre, "A", X)
     /\ IsLap(P, n) /\ r \in 0..n
     /\ r = NonZ(rp)
     /\ \A i \in 1..n : two[i] => (i < r /\ (i > 1 => ~two[i - 1]))
     (* Pt A P with rows/columns gathered by s is U^T T U *)
     /\ RowG(ColG(A, s), s) = MM(e.R, MM(e.R, Tr(U), T), U)
     (* the pivots are those of the rank profile matrix of A *)
     /\ \A i \in 1..r : rp[s[i]] = s[partner(i)]
SymOps == {"fsyrk", "fsyr2k", "fsyrkd", "fsytrf", "fsytrf_nu", "fsytrf_rpm"}
SymAllowed(e, pre, post) ==
  CASE e.op = "fsyrk"  -> Fsyrk(e, pre, post)
    [] e.op = "fsyr2k" -> Fsyr2k(e, pre, post)
    [] e.op = "fsyrkd" -> FsyrkD(e, pre, post)
    [] e.op = "fsytrf" -> Fsytrf(e, pre, post)
    [] e.op = "fsytrf_nu"  -> FsytrfNU(e, pre, post)
    [] e.op = "fsytrf_rpm" -> FsytrfRPM(e, pre, post)
TriOps == {"ftrsm", "ftrmm", "ftrmm3", "ftrtri", "trinv_left", "ftrtrm", "ftrstr", "ftrssyr2k"}
TriAllowed(e, pre, post) ==
  CASE e.op = "ftrsm"  -> Ftrsm(e, pre, post)
    [] e.op = "ftrmm"  -> post = Ftrmm(e, pre)
    [] e.op = "ftrmm3" -> post = Ftrmm3(e, pre)
    [] e.op = "ftrtri" -> Ftrtri(e, pre, post)
    [] e.op = "trinv_left" -> TrinvLeft(e, pre, post)
    [] e.op = "ftrtrm" -> post = Ftrtrm(e, pre)
    [] e.op = "ftrstr" -> Ftrstr(e, pre, post)
    [] e.op = "ftrssyr2k" -> Ftrssyr2k(e, pre, post)
=============================================================================
