----------------------------- MODULE Plan_C08 ------------------------------
(* Client behaviours for row and column rank profiles, by either          *)
(* elimination, the profiles of leading submatrices, rank-profile         *)
(* submatrices and their indices, on every rank profile shape.            *)
EXTENDS PlanLib
Types == <<"MD", "BD", "MF", "BF", "M32", "M64", "B32", "B64", "MI", "MD_L", "M64_L", "BF_L">>
IsBig(ty) == ty \in {"MI"}
Pcs == <<"2", "3", "3", "7", "101", "251", "sqrt", "half", "max", "max2", "b11", "b13", "b20", "b23">>
Kinds == <<"rand", "rpm", "rpm", "rpm", "full", "lowrank", "grp", "rev", "dup", "zero">>
Data == <<"rand", "rand", "max", "alt", "mix", "small", "sparse">>
Dim(n, d, ty) == IF IsL(ty) THEN DimL(n, d) ELSE LET r == Hash(n, d) % 24
                     b == IF IsBig(ty) THEN 6 ELSE 12
                 IN IF r = 0 THEN 0 ELSE IF r = 1 THEN 1 ELSE IF r < 15 THEN Rng(2, b, n, d + 30) ELSE IF r < 22 THEN Rng(2, 2 * b, n, d + 40) ELSE Rng(2, 4 * b, n, d + 50)
Base(n, ty, op, row, unit) ==
  [op |-> op, ty |-> ty, n |-> n, seed |-> Seed, pc |-> Pick(Pcs, n, 6), row |-> row, unit |-> unit, tile |-> (Hash(n, 21) % 2 = 0),
   up |-> (Hash(n, 22) % 2 = 0), only |-> (Hash(n, 23) % 2 = 0), inpl |-> (Hash(n, 24) % 3 = 0),
   m |-> Dim(n, 1, ty), nn |-> Dim(n, 2, ty), la |-> Pick(<<0, 0, 1, 5>>, n, 7), lb |-> Pick(<<0, 0, 1, 3>>, n, 8),
   mis |-> Pick(<<0, 0, 1, 2, 3>>, n, 10), bc |-> Pick(<<0, 0, 1, 2, 3, 5, 8, 13>>, n, 16), kind |-> Pick(Kinds, n, 13), d |-> Pick(Data, n, 14)]
Rounds == IF Thorough THEN 120 ELSE 10
B(k) == k % 2 = 1
One1(t, r) ==
  LET ty == Types[t]
      base == (t * 200 + r) * 200
  IN [q \in 1..12 |-> Base(base + q, ty, "rankprofile", B(q), FALSE)]
     \o [q \in 1..4 |-> Base(base + 20 + q, ty, "leadingprofiles", FALSE, B(q))]
     \o [q \in 1..4 |-> Base(base + 40 + q, ty, "rpsubidx", B(q), FALSE)]
     \o [q \in 1..4 |-> Base(base + 50 + q, ty, "rpsub", B(q), FALSE)]
Plan == Flatten([t \in 1..Len(Types) |-> Flatten([r \in 1..(IF IsL(Types[t]) THEN LRounds ELSE IF IsBig(Types[t]) THEN (Rounds + 1) \div 2 ELSE Rounds) |-> One1(t, r)])])
ASSUME ndJsonSerialize(Out, Plan)
ASSUME PrintT(<<"PLAN", Len(Plan)>>)
VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
=============================================================================
