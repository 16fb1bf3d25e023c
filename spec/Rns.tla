-------------------------------- MODULE Rns --------------------------------
(* Residue number systems: the residues of every entry modulo every element *)
(* of the basis, and the signed reconstruction, accumulated on gamma.C.     *)
EXTENDS Fflas
RnsAllowed(e, pre, post) ==
  LET a == e.a
      A == Opd(e, pre, "A", a.m, a.n)
      T == IF a.tr THEN Tr(A) ELSE A
  IN /\ Len(e.ret) = Len(a.basis)
     /\ \A k \in 1..Len(a.basis) : e.ret[k] = CanM([p |-> a.basis[k], lo |-> LZero, wide |-> TRUE], T).e
     /\ post = PutOpd(e, pre, "C", Lin(e.R, One(e.R), A, a.gamma, Opd(e, pre, "C", a.m, a.n)))
RnsOps == {"rnsconv"}
=============================================================================
