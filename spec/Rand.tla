-------------------------------- MODULE Rand -------------------------------
(***************************************************************************)
(* Random generators: whatever the random choices, the object generated    *)
(* has the prescribed structure (an under-specified action: the successor  *)
(* states are exactly the memories where the window holds canonical        *)
(* entries with that structure).                                           *)
(***************************************************************************)
EXTENDS Ffpack
IsZ0(R, x) == Res(R, x) = Res(R, Zero(R))
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
(* left triangular matrices of order n: rank profile and quasiseparability  *)
LtBlocks(n) == 1..(n - 1)                     \* the i x (n-i) leading blocks
LtPivots(R, M) ==                             \* pivots of the left triangular rank profile
  UNION {LET p == RPM(R, Sub4(M, 0, 0, i, M.n - i)) IN {<<k, p[k]>> : k \in {k \in 1..i : p[k] # 0}} : i \in LtBlocks(M.n)}
QSOrder(R, M) == LET s == [i \in LtBlocks(M.n) |-> Rank(R, Sub4(M, 0, 0, i, M.n - i))]
                 IN IF M.n < 2 THEN 0 ELSE CHOOSE v \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] <= v
PivQS(n, ps) == LET c(i) == Cardinality({x \in ps : x[1] < i /\ x[2] < n - i})
                IN CHOOSE v \in {c(i) : i \in 1..(n - 1)} : \A i \in 1..(n - 1) : c(i) <= v
RandIdx(e, pre, post) ==
  LET a == e.a
      r == a.r
      P == IOpd(e, post, "P", r)
      Q == IOpd(e, post, "Q", r)
      ps == {<<P[i], Q[i]>> : i \in 1..r}
      one == a.kind \in {"subset", "perm"}
      nn == IF a.kind = "ltqs" THEN a.nq ELSE a.n
  IN /\ post = IF one THEN IPut(e, pre, "P", P) ELSE IPut(e, IPut(e, pre, "P", P), "Q", Q)
     /\ IF a.kind = "perm" THEN IsLap(P, r)
        ELSE /\ Distinct(P) /\ \A i \in 1..r : P[i] >= 0 /\ P[i] < (IF a.kind = "rpm" THEN a.m ELSE nn)
             /\ one \/ (Distinct(Q) /\ \A i \in 1..r : Q[i] >= 0 /\ Q[i] < nn)
             /\ a.kind = "symrpm" => \A x \in ps : <<x[2], x[1]>> \in ps
             /\ a.kind = "ltqs" => /\ \A x \in ps : x[1] + x[2] <= nn - 2
                                   /\ PivQS(nn, ps) = a.t
RandMat(e, pre, post) ==
  LET a == e.a
      R == e.R
      A == Opd(e, post, "A", a.sm, a.n)
      want == [i \in 1..a.sm |-> LET S == {k \in DOMAIN a.rr : a.rr[k] = i - 1} IN IF S = {} THEN 0 ELSE a.cc[CHOOSE k \in S : TRUE] + 1]
  IN /\ post = PutOpd(e, pre, "A", A)
     /\ CanonM(R, A)
     /\ CASE a.kind = "rand" -> TRUE
          [] a.kind = "nonzero" -> \E x \in DOMAIN A.e : ~IsZ0(R, A.e[x])
          [] a.kind = "tri" -> \A i \in 1..a.sm : \A j \in 1..a.n :
                 /\ (IF a.up THEN i > j ELSE j > i) => IsZ0(R, At(A, i, j))
                 /\ (i = j /\ a.unit) => Res(R, At(A, i, j)) = Res(R, One(R))
                 /\ (i = j /\ a.ns) => ~IsZ0(R, At(A, i, j))
          [] a.kind = "sym" -> A = Tr(A) /\ (a.ns => Rank(R, A) = a.n)
          [] a.kind = "rank" -> Rank(R, A) = a.r
          [] a.kind = "rpm" -> RPM(R, A) = want
          [] a.kind = "rpmr" -> Rank(R, A) = a.r
          [] a.kind = "symrpm" -> A = Tr(A) /\ RPM(R, A) = want
          [] a.kind = "symrpmr" -> A = Tr(A) /\ Rank(R, A) = a.r
          [] a.kind = "det" -> DetF(R, A) = a.d
          [] a.kind = "ltqs" -> /\ \A i \in 1..a.n : \A j \in 1..a.n : i + j > a.n => IsZ0(R, At(A, i, j))
                                /\ QSOrder(R, A) = a.t /\ Cardinality(LtPivots(R, A)) = a.r
RandAllowed(e, pre, post) == CASE e.op = "randidx" -> RandIdx(e, pre, post) [] e.op = "randmat" -> RandMat(e, pre, post)
RandOps == {"randidx", "randmat"}
=============================================================================
