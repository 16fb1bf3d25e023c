----------------------------- MODULE Plan_C16 ------------------------------
(* Client behaviours for multiprecision: residue conversions for every     *)
(* basis shape and range edge, and the kernels over the integers and over  *)
(* large moduli with operands of any and of unequal bit sizes.             *)
EXTENDS PlanLib
Bits == <<1, 2, 8, 15, 16, 17, 31, 32, 33, 47, 48, 49, 62, 63, 64, 65, 79, 80, 81, 95, 96, 100, 127, 128, 129, 150, 191, 192, 200, 255, 256, 257>>
Data == <<"vb", "vb", "tiny", "pow", "max", "rand", "alt", "sparse">>
Com(n, ty, op, h) ==
  [op |-> op, h |-> h, ty |-> ty, n |-> n, seed |-> Seed, zb |-> Pick(Bits, n, 41), pc |-> "b" \o ToString(3 + Pick(Bits, n, 42)),
   al |-> Pick(<<"1", "1", "-1", "2", "r", "max">>, n, 3), be |-> Pick(<<"0", "1", "-1", "r">>, n, 4), la |-> Pick(<<0, 0, 2>>, n, 5), lb |-> Pick(<<0, 0, 1>>, n, 6), lc |-> Pick(<<0, 0, 3>>, n, 7), mis |-> 0, mis2 |-> 0,
   dA |-> Pick(Data, n, 13), dB |-> Pick(Data, n, 14), dC |-> Pick(<<"vb", "tiny", "max", "rand", "zero">>, n, 15), ta |-> (Hash(n, 16) % 2 = 0), tb |-> (Hash(n, 17) % 2 = 0), m |-> Rng(1, 6, n, 1), nn |-> Rng(1, 6, n, 2)]
Conv(n) == [Com(n, "ZI", "rnsconv", "conv") @@ [pb |-> Rng(14, 31, n, 51), csz |-> 0, ext |-> FALSE, tr |-> (Hash(n, 52) % 2 = 0), major |-> (Hash(n, 53) % 3 = 0)] EXCEPT !.m = Rng(0, 5, n, 54), !.nn = Rng(0, 5, n, 55)]
ConvX(n) == [Conv(n) EXCEPT !.ext = TRUE, !.pb = Rng(20, 50, n, 56)]
ConvS(n) == [Conv(n) EXCEPT !.ext = (Hash(n, 57) % 3 = 0), !.pb = Rng(8, 12, n, 58), !.csz = Rng(2, 6, n, 59)]
Gemm(n, ty) == Com(n, ty, "fgemm", "gemm") @@ [k |-> Pick(<<1, 2, 3, 5, 9, 17, 33>>, n, 8), form |-> "def", w |-> 0]
Gemv(n, ty) == Com(n, ty, "fgemv", "l2") @@ [ix |-> Pick(<<1, 2>>, n, 8), iy |-> Pick(<<1, 3>>, n, 9), form |-> 0]
Det(n) == [Com(n, "ZI", "det", "sol") @@ [kind |-> Pick(<<"rand", "rand", "had", "rpm">>, n, 9), d |-> Pick(Data, n, 10), form |-> 0] EXCEPT !.zb = Pick(<<1, 3, 7, 15, 16, 17, 20, 31, 32, 33, 48, 64>>, n, 43)]
Poly(n) == [Com(n, "ZI", "charpoly", "poly") @@ [kind |-> Pick(<<"rand", "rand", "had", "blocks">>, n, 9), d |-> Pick(Data, n, 10), form |-> 0, tag |-> 0, deg |-> 0] EXCEPT !.zb = Pick(<<1, 3, 7, 15, 16, 17, 20, 31, 32, 33, 48, 64>>, n, 43)]
Tri(n) == Com(n, "MI", Pick(<<"ftrsm", "ftrsm", "ftrmm">>, n, 9), "tri") @@ [left |-> (Hash(n, 23) % 2 = 0), up |-> (Hash(n, 27) % 2 = 0), unit |-> (Hash(n, 28) % 2 = 0), unitB |-> FALSE, form |-> 0, th |-> 0, dg |-> "r"]
Lu(n) == [Com(n, "MI", Pick(<<"pluq", "ludivine">>, n, 7), "lu") @@
   [row |-> (Hash(n, 21) % 2 = 0), unit |-> (Hash(n, 22) % 2 = 0), tile |-> (Hash(n, 23) % 2 = 0), up |-> TRUE, only |-> FALSE, inpl |-> FALSE, bc |-> 0, kind |-> Pick(<<"rand", "full", "rpm", "grp">>, n, 34), d |-> Pick(Data, n, 35)] EXCEPT !.m = Rng(1, 9, n, 1), !.nn = Rng(1, 9, n, 2)]
Rounds == IF Thorough THEN 60 ELSE 5
One1(r) == LET base == r * 500
  IN [q \in 1..40 |-> Conv(base + q)] \o [q \in 1..6 |-> ConvX(base + 45 + q)] \o [q \in 1..8 |-> ConvS(base + 52 + q)] \o [q \in 1..40 |-> Gemm(base + 60 + q, "ZI")] \o [q \in 1..20 |-> Gemm(base + 110 + q, "MI")] \o [q \in 1..20 |-> Gemv(base + 140 + q, "ZI")]
     \o [q \in 1..10 |-> Gemv(base + 170 + q, "MI")] \o [q \in 1..12 |-> Det(base + 190 + q)] \o [q \in 1..8 |-> Poly(base + 210 + q)] \o [q \in 1..24 |-> Tri(base + 230 + q)] \o [q \in 1..10 |-> Lu(base + 260 + q)]
Plan == Flatten([r \in 1..Rounds |-> One1(r)])
ASSUME ndJsonSerialize(Out, Plan)
ASSUME PrintT(<<"PLAN", Len(Plan)>>)
VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
=============================================================================
