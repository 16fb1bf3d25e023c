------------------------------ MODULE Sparse -------------------------------
(***************************************************************************)
(* Sparse matrices.  A matrix is given by coordinate triples (row, col,    *)
(* value); whatever the storage format, the products are those of the      *)
(* dense matrix it denotes.  The SELL formats sort the rows and publish    *)
(* the permutation (e.ret[4]): row i of the product is found, and is       *)
(* accumulated, at position perm[i] of the result.                         *)
(***************************************************************************)
EXTENDS Fflas, SequencesExt
(* the m x n matrix denoted by the triples *)
Dense(R, m, n, row, col, v, off) ==
  LET z == [x \in 1..(m * n) |-> Zero(R)]
  IN [m |-> m, n |-> n,
      e |-> FoldLeft(LAMBDA acc, t : [acc EXCEPT ![row[t] * n + col[t] + 1] = Add(R, @, v[off + t])], z, [t \in 1..Len(row) |-> t])]
SparseAllowed(e, pre, post) ==
  LET a == e.a
      A == Dense(e.R, a.m, a.n, a.row, a.col, pre["V"], a.V.o)
      X == Opd(e, pre, "X", a.n, a.w)
      Y == Opd(e, pre, "Y", a.m, a.w)
      s == [i \in 1..Len(e.ret[4]) |-> e.ret[4][i] + 1]
      (* rows of A in the order the format stores them *)
      B == IF e.ret[4] = <<>> THEN A ELSE RowG(A, PInv(s))
  IN /\ e.ret[1] = a.m /\ e.ret[2] = a.n /\ e.ret[3] = Len(a.row)
     /\ e.ret[4] # <<>> => (Len(e.ret[4]) = a.m /\ IsPerm(s, a.m))
     /\ post = PutOpd(e, pre, "Y", GemmRes(e.R, One(e.R), B, X, a.beta, Y))
SparseOps == {"sparse"}
=============================================================================
