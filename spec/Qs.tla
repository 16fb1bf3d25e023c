--------------------------------- MODULE Qs --------------------------------
(***************************************************************************)
(* Quasi-separable matrices.                                               *)
(*  - Bruhat generator of a left triangular A: pivots of the left          *)
(*    triangular rank profile, A = Left(L E^T U) with E the pivot matrix,  *)
(*    quasiseparability order read off the pivots.                         *)
(*  - compact (block bidiagonal) storage: expanding gives the factor back, *)
(*    multiplying through it gives the product with A.                     *)
(*  - sequentially semi-separable generators: SSSDense defines the matrix  *)
(*    they represent; conversion and product routines agree with it.       *)
(***************************************************************************)
EXTENDS Rand
LeftPart(R, M) == Mk(M.m, M.n, LAMBDA i, j : IF i + j <= M.n THEN At(M, i, j) ELSE Zero(R))
Bruhat(e, pre, post) ==
  LET n == e.a.n
      R == e.R
      r == e.ret.r
      A == Opd(e, pre, "A", n, n)
      P == IOpd(e, post, "P", n)
      Q == IOpd(e, post, "Q", n)
      L == Opd(e, post, "L", n, n)
      U == Opd(e, post, "U", n, n)
      E == Opd(e, post, "E", n, n)
      ps == {<<P[i] + 1, Q[i] + 1>> : i \in 1..r}
      lu == MM(R, MM(R, L, Tr(E)), U)
  IN /\ post = IPut(e, IPut(e, PutOpd(e, PutOpd(e, PutOpd(e, MatOnly(e, pre, post, "A", n, n), "L", L), "U", U), "E", E), "P", P), "Q", Q)
     /\ ps = LtPivots(R, A) /\ Cardinality(ps) = r
     /\ e.ret.s = QSOrder(R, A)
     /\ CanonM(R, L) /\ CanonM(R, U)
     /\ E = Mk(n, n, LAMBDA i, j : IF <<i, j>> \in ps THEN One(R) ELSE Zero(R))
     /\ \A i \in 1..n : \A j \in 1..n :        \* shape: column j of L starts at its pivot, row i of U starts at its pivot
          /\ Res(R, At(L, i, j)) # Res(R, Zero(R)) => \E x \in ps : x[2] = j /\ x[1] <= i
          /\ Res(R, At(U, i, j)) # Res(R, Zero(R)) => \E x \in ps : x[1] = i /\ x[2] <= j
     /\ \A x \in ps : Res(R, At(IF e.a.unit THEN U ELSE L, x[1], x[2])) = Res(R, One(R))
     /\ LeftPart(R, lu) = A
Compress(e, pre, post) ==
  LET n == e.a.n
  IN post = PutOpd(e, MatOnly(e, pre, post, "X", e.a.xm, e.a.xn), "Y", Opd(e, pre, "T", n, n))
BruhatProd(e, pre, post) ==
  LET R == e.R
      n == e.a.n
  IN post = PutOpd(e, pre, "C", Lin(R, One(R), MM(R, Opd(e, pre, "A", n, n), Opd(e, pre, "B", n, e.a.t)), e.a.be, Opd(e, pre, "C", n, e.a.t)))

NBlk(e) == (e.a.n + e.a.s - 1) \div e.a.s
BSz(e, i) == IF i = NBlk(e) THEN e.a.n - (i - 1) * e.a.s ELSE e.a.s
LastS(e) == BSz(e, NBlk(e))
Pos0(x) == IF x > 0 THEN x ELSE 0
RowsP(e) == Pos0(e.a.n - e.a.s)
RowsU(e) == Pos0(e.a.n - LastS(e))
RowsR(e) == Pos0(e.a.n - e.a.s - LastS(e))
Gen(e, mem, k) == Opd(e, mem, k, IF k = "D" THEN e.a.n ELSE IF k = "P" THEN RowsP(e) ELSE IF k \in {"R", "W"} THEN RowsR(e) ELSE RowsU(e), e.a.s)
(* i-th block of a generator whose first block has number b0, r x c *)
Blk(e, G, i, b0, r, c) == Sub4(G, (i - b0) * e.a.s, 0, r, c)
SSSDense(e, mem) ==
  LET R == e.R
      s == e.a.s
      k == NBlk(e)
      gp == Gen(e, mem, "P")  gq == Gen(e, mem, "Q")  gr == Gen(e, mem, "R")
      gu == Gen(e, mem, "U")  gv == Gen(e, mem, "V")  gw == Gen(e, mem, "W")  gd == Gen(e, mem, "D")
      Lo[d \in 0..k] == \* Lo[d][i][j] for i - j = d, as a function of i: P_i R_{i-1} ... R_{i-d+1}
         IF d = 0 THEN <<>> ELSE [i \in (d + 1)..k |-> IF d = 1 THEN Blk(e, gp, i, 2, BSz(e, i), s) ELSE MM(R, Lo[d - 1][i], Blk(e, gr, i - d + 1, 2, s, s))]
      Hi[d \in 0..k] == \* for j - i = d, as a function of i: U_i W_{i+1} ... W_{i+d-1}
         IF d = 0 THEN <<>> ELSE [i \in 1..(k - d) |-> IF d = 1 THEN Blk(e, gu, i, 1, s, s) ELSE MM(R, Hi[d - 1][i], Blk(e, gw, i + d - 1, 2, s, s))]
      B == [ij \in (1..k) \X (1..k) |->
             LET i == ij[1]  j == ij[2]
             IN IF i = j THEN Blk(e, gd, i, 1, BSz(e, i), BSz(e, i))
                ELSE IF i > j THEN MM(R, Lo[i - j][i], Blk(e, gq, j, 1, s, s))
                ELSE MM(R, Hi[j - i][i], Blk(e, gv, j, 2, s, BSz(e, j)))]
      BB == TLCEval(B)
      q(i) == ((i - 1) \div s) + 1
      f(i) == ((i - 1) % s) + 1
  IN Mk(e.a.n, e.a.n, LAMBDA i, j : At(BB[<<q(i), q(j)>>], f(i), f(j)))
Sss2Dense(e, pre, post) == post = PutOpd(e, pre, "A", SSSDense(e, pre))
PutGen(e, mem, post, k) == PutOpd(e, mem, k, Gen(e, post, k))
Dense2Sss(e, pre, post) ==
  /\ post = PutGen(e, PutGen(e, PutGen(e, PutGen(e, PutGen(e, PutGen(e, PutGen(e, pre, post, "P"), post, "Q"), post, "R"), post, "U"), post, "V"), post, "W"), post, "D")
  /\ SSSDense(e, post) = Opd(e, pre, "A", e.a.n, e.a.n)
SssProd(e, pre, post) ==
  LET R == e.R
      n == e.a.n
  IN post = PutOpd(e, pre, "C", Lin(R, e.a.al, MM(R, SSSDense(e, pre), Opd(e, pre, "B", n, e.a.t)), e.a.be, Opd(e, pre, "C", n, e.a.t)))
QsAllowed(e, pre, post) ==
  CASE e.op = "bruhat" -> Bruhat(e, pre, post)
    [] e.op = "compress" -> Compress(e, pre, post)
    [] e.op = "bruhatprod" -> BruhatProd(e, pre, post)
    [] e.op = "sss2dense" -> Sss2Dense(e, pre, post)
    [] e.op = "dense2sss" -> Dense2Sss(e, pre, post)
    [] e.op = "sssprod" -> SssProd(e, pre, post)
QsOps == {"bruhat", "compress", "bruhatprod", "sss2dense", "dense2sss", "sssprod"}
=============================================================================
