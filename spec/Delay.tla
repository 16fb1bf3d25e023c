------------------------------- MODULE Delay -------------------------------
(***************************************************************************)
(* Design of the delayed reductions (helpers of FFLAS, "MaxDelayedDim"):   *)
(* an inner product of length k over Z/p is accumulated in a register that *)
(* represents exactly the integers of magnitude at most S; it is reduced   *)
(* only after Kmax products.  The client (adversary) chooses the modulus,  *)
(* the representation (0..p-1 or balanced), the length, the initial value  *)
(* with its scalar and every product.  Exact: the register never leaves    *)
(* the exact range, whatever the client chooses.                           *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS S, MaxK
VARIABLES p, bal, k, beta, acc, left, room, phase
vars == <<p, bal, k, beta, acc, left, room, phase>>
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a < b THEN b ELSE a
Lo(q, b) == IF b THEN -((q - 1) \div 2) ELSE 0
Hi(q, b) == IF b THEN q \div 2 ELSE q - 1
(* largest magnitude of an element *)
C(q, b) == Max(Abs(Lo(q, b)), Hi(q, b))
(* products that fit next to bt times an initial value *)
Delayed(q, b, bt) == LET d == S - Abs(bt) * C(q, b) IN IF d < 0 THEN 0 ELSE d \div (C(q, b) * C(q, b))
(* when the length has to be split every block but the first accumulates on a reduced value *)
Kmax(q, b, bt, len) == LET m == Delayed(q, b, bt) IN IF m < len THEN (IF m < Delayed(q, b, 1) THEN m ELSE Delayed(q, b, 1)) ELSE m
(* moduli the representation advertises: one product must fit next to a reduced value *)
Legal(q, b) == C(q, b) * C(q, b) + C(q, b) <= S
Init ==
  /\ p \in {q \in 2..(2 * S) : \E b \in BOOLEAN : Legal(q, b)}
  /\ bal \in {b \in BOOLEAN : Legal(p, b) /\ (b => p > 2)}
  /\ k \in 0..MaxK
  /\ beta \in {Lo(p, bal), -1, 0, 1, Hi(p, bal)}
  /\ Abs(beta) * C(p, bal) <= S
  /\ acc \in {beta * Lo(p, bal), beta * Hi(p, bal)}
  /\ left = k
  (* when not even one product fits beside beta.C the code reduces beta.C first *)
  /\ room = IF Kmax(p, bal, beta, k) = 0 THEN 0 ELSE Kmax(p, bal, beta, k)
  /\ phase = "acc"
Prods == {x * y : x \in {Lo(p, bal), Hi(p, bal)}, y \in {Lo(p, bal), Hi(p, bal)}}
Accumulate == /\ phase = "acc" /\ left > 0 /\ room > 0
              /\ \E z \in Prods : acc' = acc + z
              /\ left' = left - 1 /\ room' = room - 1
              /\ UNCHANGED <<p, bal, k, beta, phase>>
(* reduction: the client cannot predict the residue, any canonical extreme is possible *)
Reduce == /\ phase = "acc" /\ left > 0 /\ room = 0
          /\ acc' \in {Lo(p, bal), Hi(p, bal)}
          /\ room' = Delayed(p, bal, 1)
          /\ UNCHANGED <<p, bal, k, beta, left, phase>>
Finish == /\ phase = "acc" /\ left = 0 /\ acc' \in {Lo(p, bal), Hi(p, bal)} /\ phase' = "done"
          /\ UNCHANGED <<p, bal, k, beta, left, room>>
Next == Accumulate \/ Reduce \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Exact == Abs(acc) <= S
(* a legal modulus always leaves room for at least one product after a reduction: the loop terminates *)
Progress == (phase = "acc" /\ left > 0) => (room > 0 \/ Delayed(p, bal, 1) >= 1)
Terminates == <>(phase = "done")
=============================================================================
