----------------------------- MODULE Plan_C05 ------------------------------
(* Client behaviours for triangular routines: all side/uplo/trans/diag     *)
(* combinations for ftrsm, ftrmm (2 and 3 operands), all variants of       *)
(* ftrtri, ftrtrm, ftrstr, ftrssyr2k, sizes crossing the recursion and     *)
(* delayed-reduction thresholds.                                           *)
EXTENDS PlanLib
Types == <<"MD", "BD", "MF", "BF", "M32", "M64", "B32", "B64", "MI", "MD_L", "M64_L">>
IsBig(ty) == ty \in {"MI"}
Als == <<"1", "-1", "2", "r", "max">>
Bes == <<"0", "1", "-1", "r">>
Pcs == <<"2", "3", "7", "101", "251", "sqrt", "half", "max", "max", "max2", "b11", "b13", "b16", "b20", "b23">>
Data == <<"rand", "rand", "max", "alt", "mix", "small", "sparse">>
Dim(n, d, ty) == IF IsL(ty) THEN DimL(n, d) ELSE LET r == Hash(n, d) % 16
                     b == IF IsBig(ty) THEN 6 ELSE 18
                 IN IF r = 0 THEN 0 ELSE IF r = 1 THEN 1 ELSE IF r < 9 THEN Rng(2, b, n, d + 30) ELSE IF r < 15 THEN Rng(2, 2 * b, n, d + 40) ELSE Rng(2, 4 * b, n, d + 50)
Base(n, ty, op, left, up, ta, unit, ub) ==
  [op |-> op, ty |-> ty, n |-> n, seed |-> Seed, pc |-> IF op = "ftrssyr2k" THEN Pick(<<"3", "7", "101", "sqrt", "half", "max", "b20">>, n, 6) ELSE Pick(Pcs, n, 6),
   left |-> left, up |-> up, ta |-> ta, unit |-> unit, unitB |-> ub, al |-> IF op \in {"ftrmm", "ftrmm3", "ftrsm"} /\ Hash(n, 99) % 12 = 0 THEN "0" ELSE Pick(Als, n, 3), be |-> Pick(Bes, n, 4),
   m |-> Dim(n, 1, ty), nn |-> Dim(n, 2, ty), la |-> Pick(<<0, 0, 1, 5>>, n, 7), lb |-> Pick(<<0, 0, 1, 3>>, n, 8), lc |-> Pick(<<0, 0, 2, 3>>, n, 9),
   mis |-> Pick(<<0, 0, 1, 2, 3>>, n, 10), mis2 |-> Pick(<<0, 1, 2>>, n, 11), form |-> Hash(n, 12) % 2, th |-> Pick(<<0, 0, 1, 2, 3, 8>>, n, 16),
   dA |-> Pick(Data, n, 13), dB |-> Pick(Data, n, 14)]
Rounds == IF Thorough THEN 90 ELSE 9
B(k) == k % 2 = 1
One1(t, r) ==
  LET ty == Types[t]
      base == (t * 200 + r) * 200
      K(q0, op) == [q \in 1..16 |-> Base(base + q0 + q, ty, op, B(q), B(q \div 2), B(q \div 4), B(q \div 8), B(Hash(base + q, 77)))]
  IN K(0, "ftrsm") \o K(20, "ftrsm") \o K(40, "ftrmm") \o K(60, "ftrmm3")
     \o [q \in 1..8 |-> Base(base + 80 + q, ty, "ftrtri", TRUE, B(q), FALSE, B(q \div 2), FALSE)]
     \o <<Base(base + 90, ty, "trinv_left", TRUE, FALSE, FALSE, TRUE, TRUE)>>
     \o [q \in 1..4 |-> Base(base + 91 + q, ty, "ftrtrm", B(q), TRUE, FALSE, B(q \div 2), FALSE)]
     \o [q \in 1..16 |-> Base(base + 100 + q, ty, "ftrstr", B(q), B(q \div 2), FALSE, B(q \div 4), B(q \div 8))]
     \o [q \in 1..4 |-> Base(base + 120 + q, ty, "ftrssyr2k", TRUE, B(q), FALSE, B(q \div 2), FALSE)]
Plan == Flatten([t \in 1..Len(Types) |-> Flatten([r \in 1..(IF IsL(Types[t]) THEN LRounds ELSE IF IsBig(Types[t]) THEN (Rounds + 1) \div 2 ELSE Rounds) |-> One1(t, r)])])
ASSUME ndJsonSerialize(Out, Plan)
ASSUME PrintT(<<"PLAN", Len(Plan)>>)
VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
=============================================================================
