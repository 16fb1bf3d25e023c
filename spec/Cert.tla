-------------------------------- MODULE Cert -------------------------------
(***************************************************************************)
(* Certificates.  e.ret is the sequence of verdicts of independent runs of *)
(* the checker on a claimed result.  A correct claim is accepted by every  *)
(* run; a wrong claim is rejected by at least one (each run misses it with *)
(* probability at most 3/4, at most 2/p over larger fields: the number of  *)
(* runs is chosen so that missing all of them is negligible).              *)
(***************************************************************************)
EXTENDS Ffpack
CTri(e, k) == IF e.a.left THEN e.a.m ELSE e.a.n
Product(R, A, X, r, P, Q, unit) ==
  RowG(ColG(A, LapMath(Q, A.n)), LapMath(P, A.m)) = MM(R, LowPart(R, X, A.m, r, ~unit), UpPart(R, X, r, A.n, unit))
ProdDiag(R, X) == LET f[i \in 0..X.m] == IF i = 0 THEN One(R) ELSE Mul(R, f[i - 1], At(X, i, i)) IN f[X.m]
Sgn(R, P, Q, x) == IF (Cardinality({i \in DOMAIN P : P[i] # i - 1}) + Cardinality({i \in DOMAIN Q : Q[i] # i - 1})) % 2 = 1 THEN Neg(R, x) ELSE x
Claim(e, pre) ==
  LET R == e.R
      a == e.a
      X == Opd(e, pre, "X", a.m, IF a.kind = "inv" THEN a.m ELSE a.n)
  IN CASE a.kind = "gemm" -> X = Lin(R, a.al, MM(R, Op(a.ta, IF a.ta THEN Opd(e, pre, "A", a.k, a.m) ELSE Opd(e, pre, "A", a.m, a.k)),
                                                Op(a.tb, IF a.tb THEN Opd(e, pre, "B", a.n, a.k) ELSE Opd(e, pre, "B", a.k, a.n))), a.be, Opd(e, pre, "C", a.m, a.n))
       [] a.kind = "trsm" -> SideMul(R, a.left, TriOp(e, pre, "A", CTri(e, "A")), X) = Scal(R, a.al, Opd(e, pre, "B", a.m, a.n))
       [] a.kind = "inv" -> a.nul = 0 /\ MM(R, X, Opd(e, pre, "A", a.m, a.m)) = Id(R, a.m)
       [] a.kind = "pluq" -> Product(R, Opd(e, pre, "A", a.m, a.n), X, a.r, IOpd(e, pre, "P", a.m), IOpd(e, pre, "Q", a.n), a.unit)
       [] a.kind = "det" -> LET P == IOpd(e, pre, "P", a.m)
                                Q == IOpd(e, pre, "Q", a.n)
                            IN Product(R, Opd(e, pre, "A", a.m, a.n), X, a.m, P, Q, FALSE) /\ a.det = Sgn(R, P, Q, ProdDiag(R, X))
       [] a.kind = "charpoly" -> a.g = CharPoly(R, Opd(e, pre, "A", a.m, a.m))
(* where a wrong claim has to be noticed *)
Decided(e) ==
  CASE e.a.kind = "inv" -> e.a.nul = 0
    [] e.a.kind = "charpoly" -> e.R.wide \/ e.R.p > 2 * e.a.m + 2
    [] OTHER -> TRUE
CertAllowed(e, pre, post) ==
  /\ post = pre
  /\ IF e.a.kind = "inv" /\ e.a.nul # 0 THEN Rank(e.R, Opd(e, pre, "A", e.a.m, e.a.m)) < e.a.m => \A i \in DOMAIN e.ret : e.ret[i]
     ELSE IF Claim(e, pre) THEN \A i \in DOMAIN e.ret : e.ret[i]
     ELSE Decided(e) => \E i \in DOMAIN e.ret : ~e.ret[i]
CertOps == {"chk"}
=============================================================================
