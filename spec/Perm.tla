-------------------------------- MODULE Perm -------------------------------
(***************************************************************************)
(* Permutations.  A LAPACK array P denotes the product of the              *)
(* transpositions (i P[i]); the Math array is the permutation itself:      *)
(* entry i receives what was at position Math[i].                          *)
(***************************************************************************)
EXTENDS Ffpack

Lap2Math(e, pre, post) == post = IPut(e, pre, "Q", Dn1(LapMath(IOpd(e, pre, "P", e.a.n), e.a.n)))
Math2Lap(e, pre, post) ==
  LET Q == IOpd(e, post, "Q", e.a.n)
  IN /\ post = IPut(e, pre, "Q", Q)
     /\ IsLap(Q, e.a.n)
     /\ LapMath(Q, e.a.n) = Up1(IOpd(e, pre, "P", e.a.n))
(* P1 x Diag(I_r, P2) *)
DiagPerm(r, s) == [i \in 1..(r + Len(s)) |-> IF i <= r THEN i ELSE r + s[i - r]]
Compose(s, t) == [i \in DOMAIN s |-> s[t[i]]]
ComposePerm(e, pre, post) ==
  LET n == e.a.n
      p1 == IOpd(e, pre, "P1", n)
      s == IF e.a.form = 2 THEN Up1(p1) ELSE LapMath(p1, n)
      t == Compose(s, DiagPerm(e.a.r, LapMath(IOpd(e, pre, "P2", n - e.a.r), n - e.a.r)))
      L == IOpd(e, post, "P1", n)
  IN CASE e.a.form = 0 -> post = IPut(e, pre, "P1", L) /\ IsLap(L, n) /\ LapMath(L, n) = t
       [] e.a.form = 1 -> post = IPut(e, pre, "Q", Dn1(t))
       [] OTHER -> post = IPut(e, pre, "P1", Dn1(t))
Rot(n) == [i \in 1..n |-> IF i = 1 THEN n ELSE i - 1]
ShiftPerm(e, pre, post) == LET P == IOpd(e, pre, "P", e.a.n) IN post = IPut(e, pre, "P", Compose(P, Rot(e.a.n)))
Shift(e, pre, post) ==
  LET A == OpdMN(e, pre, "A")
  IN post = PutOpd(e, pre, "A", CASE e.a.form = 0 -> RowG(A, Rot(A.m)) [] e.a.form = 1 -> ColG(A, Rot(A.n)) [] OTHER -> RowG(ColG(A, Rot(A.n)), Rot(A.m)))
PermDims(e) == IF e.a.left THEN <<e.a.n, e.a.m>> ELSE <<e.a.m, e.a.n>>
Gather(e, A, s) == IF e.a.left THEN RowG(A, s) ELSE ColG(A, s)
(* P A or A P^T gather in the order of the permutation; P^T A and A P scatter *)
Apply(e, pre, s) ==
  LET d == PermDims(e)
      A == Opd(e, pre, "A", d[1], d[2])
  IN PutOpd(e, pre, "A", Gather(e, A, IF e.a.left # e.a.ta THEN s ELSE PInv(s)))
ApplyP(e, pre, post) ==
  LET P == IOpd(e, pre, "P", e.a.n)
  IN post = Apply(e, pre, LapMath([i \in 1..e.a.n |-> IF i > e.a.ib /\ i <= e.a.ie THEN P[i] ELSE i - 1], e.a.n))
(* the first r images are the pivots, the others follow in increasing order *)
Monotone(P, r, n) ==
  LET s == LapMath(P, n)
      piv == {s[i] : i \in 1..r}
      rest == SortSet((1..n) \ piv)
  IN [i \in 1..n |-> IF i <= r THEN s[i] ELSE rest[i - r]]
MonApplyP(e, pre, post) == post = Apply(e, pre, Monotone(IOpd(e, pre, "P", e.a.n), e.a.r, e.a.n))
Iota(a, k) == [i \in 1..k |-> a + i]
(* the block rotations of the recursive eliminations *)
PermS(a) == Iota(0, a.r1 + a.r2) \o Iota(a.m2, a.r3 + a.r4) \o Iota(a.r1 + a.r2, a.m2 - a.r1 - a.r2)
PermT(a) == Iota(0, a.r1) \o Iota(a.m2, a.r2) \o Iota(a.r1, a.r3) \o Iota(a.m2 + a.r2, a.r4) \o Iota(a.r1 + a.r3, a.m2 - a.r1 - a.r3)
AppST(e, pre, post) ==
  LET s == IF e.op = "apps" THEN PermS(e.a) ELSE PermT(e.a)
      k == IF e.a.form = 3 THEN "I" ELSE "A"
      A == IF e.op = "apps" THEN Opd(e, pre, k, Len(s), e.a.width) ELSE Opd(e, pre, k, e.a.width, Len(s))
  IN post = PutOpd(e, pre, k, IF e.op = "apps" THEN RowG(A, s) ELSE ColG(A, s))
PermOps == {"lap2math", "math2lap", "compose", "shiftperm", "shift", "applyp", "monapplyp", "apps", "appt"}
PermAllowed(e, pre, post) ==
  CASE e.op = "lap2math" -> Lap2Math(e, pre, post)
    [] e.op = "math2lap" -> Math2Lap(e, pre, post)
    [] e.op = "compose" -> ComposePerm(e, pre, post)
    [] e.op = "shiftperm" -> ShiftPerm(e, pre, post)
    [] e.op = "shift" -> Shift(e, pre, post)
    [] e.op = "applyp" -> ApplyP(e, pre, post)
    [] e.op = "monapplyp" -> MonApplyP(e, pre, post)
    [] e.op \in {"apps", "appt"} -> AppST(e, pre, post)
=============================================================================
