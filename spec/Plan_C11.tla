----------------------------- MODULE Plan_C11 ------------------------------
(* Client behaviours for linear systems (fgesv/fgetrs, square in place and *)
(* rectangular out of place, both sides, consistent or not), Solve,        *)
(* solveLB/solveLB2, nullspace bases and random nullspace vectors.         *)
EXTENDS PlanLib
Types == <<"MD", "BD", "MF", "BF", "M32", "M64", "B32", "B64", "MI", "MD_L", "M64_L", "BF_L">>
IsBig(ty) == ty \in {"MI"}
Pcs == <<"2", "3", "3", "7", "101", "251", "sqrt", "half", "max", "max2", "b11", "b13", "b20", "b23">>
Kinds == <<"rand", "rpm", "rpm", "rpm", "full", "lowrank", "grp", "rev", "dup", "zero">>
Data == <<"rand", "rand", "max", "alt", "mix", "small", "sparse">>
Dim(n, d, ty) == IF IsL(ty) THEN DimL(n, d) ELSE LET r == Hash(n, d) % 24
                     b == IF IsBig(ty) THEN 6 ELSE 12
                 IN IF r = 0 THEN 0 ELSE IF r = 1 THEN 1 ELSE IF r < 15 THEN Rng(2, b, n, d + 30) ELSE IF r < 22 THEN Rng(2, 2 * b, n, d + 40) ELSE Rng(2, 3 * b, n, d + 50)
Base(n, ty, op, left, form) ==
  [op |-> op, ty |-> ty, n |-> n, seed |-> Seed, pc |-> Pick(Pcs, n, 6), left |-> left, form |-> form, cons |-> (Hash(n, 21) % 3 # 0),
   m |-> Dim(n, 1, ty), nn |-> Dim(n, 2, ty), k |-> Pick(<<0, 1, 1, 2, 5, 9, 17>>, n, 3), la |-> Pick(<<0, 0, 1, 5>>, n, 7), lb |-> Pick(<<0, 0, 1, 3>>, n, 8), lc |-> Pick(<<0, 0, 2, 3>>, n, 9),
   mis |-> Pick(<<0, 0, 1, 2, 3>>, n, 10), kind |-> Pick(Kinds, n, 13), d |-> Pick(Data, n, 14)]
Rounds == IF Thorough THEN 130 ELSE 11
B(k) == k % 2 = 1
One1(t, r) ==
  LET ty == Types[t]
      base == (t * 200 + r) * 200
  IN [q \in 1..4 |-> Base(base + q, ty, "fgesv", B(q), 0)]
     \o [q \in 1..4 |-> Base(base + 10 + q, ty, "fgetrs", B(q), 0)]
     \o [q \in 1..6 |-> Base(base + 20 + q, ty, "fgesv2", B(q), 0)]
     \o [q \in 1..4 |-> Base(base + 30 + q, ty, "fgetrs2", B(q), 0)]
     \o [q \in 1..2 |-> Base(base + 40 + q, ty, "solve", B(q), 0)]
     \o [q \in 1..4 |-> Base(base + 50 + q, ty, "solvelb", B(q), q \div 2)]
     \o [q \in 1..4 |-> Base(base + 60 + q, ty, "nullbasis", B(q), 0)]
     \o [q \in 1..4 |-> Base(base + 70 + q, ty, "nullvec", B(q), 0)]
Plan == Flatten([t \in 1..Len(Types) |-> Flatten([r \in 1..(IF IsL(Types[t]) THEN LRounds ELSE IF IsBig(Types[t]) THEN (Rounds + 1) \div 2 ELSE Rounds) |-> One1(t, r)])])
ASSUME ndJsonSerialize(Out, Plan)
ASSUME PrintT(<<"PLAN", Len(Plan)>>)
VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
=============================================================================
