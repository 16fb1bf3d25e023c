----------------------------- MODULE Plan_C22 ------------------------------
(* Client behaviours for the random generators: every generator, on small  *)
(* and large fields, all shapes, ranks and strides.                        *)
EXTENDS PlanLib
Types == <<"MD", "BD", "MF", "BF", "M32", "M64", "B32", "B64", "MI">>
Pcs == <<"2", "3", "3", "7", "101", "251", "sqrt", "half", "max", "b11", "b13", "b23">>
Dim(n, d) == LET r == Hash(n, d) % 16 IN IF r = 0 THEN 1 ELSE IF r < 12 THEN Rng(2, 9, n, d + 30) ELSE Rng(3, 16, n, d + 40)
Base(n, ty, op, kind) ==
  [op |-> op, ty |-> ty, n |-> n, seed |-> Seed, pc |-> Pick(Pcs, n, 6), kind |-> kind,
   up |-> (Hash(n, 21) % 2 = 0), unit |-> (Hash(n, 22) % 3 = 0), ns |-> (Hash(n, 23) % 2 = 0), dflt |-> (Hash(n, 25) % 3 = 0),
   m |-> Dim(n, 1), nn |-> IF kind = "ltqs" THEN Dim(n, 2) + 1 ELSE Dim(n, 2), la |-> Pick(<<0, 0, 1, 5>>, n, 7),
   rc |-> Pick(<<0, 1, 1, 2, 2, 2, 2>>, n, 8), sc |-> Pick(<<"r", "R", "1", "0", "-1">>, n, 9), mis |-> Pick(<<0, 0, 1, 2, 3>>, n, 10)]
Mats == <<"rand", "nonzero", "tri", "tri", "tri", "tri", "sym", "sym", "rank", "rank", "rpm", "rpm", "rpmr", "symrpm", "symrpm", "symrpmr", "det", "det", "det", "ltqs", "ltqs", "ltqs">>
Idx == <<"subset", "perm", "rpm", "symrpm", "symrpm", "symrpm", "ltqs", "ltqs", "ltqs", "ltqs">>
Rounds == IF Thorough THEN 60 ELSE 6
One1(t, r) ==
  LET ty == Types[t]
      base == (t * 200 + r) * 200
  IN [q \in 1..Len(Mats) |-> Base(base + q, ty, "randmat", Mats[q])]
     \o (IF ty = "MD" THEN Flatten([k \in 1..(IF Thorough THEN 6 ELSE 6) |-> [q \in 1..Len(Idx) |-> Base(base + 30 + k * 17 + q, ty, "randidx", Idx[q])]]) ELSE <<>>)
Plan == Flatten([t \in 1..Len(Types) |-> Flatten([r \in 1..(IF Types[t] = "MI" THEN (Rounds + 1) \div 2 ELSE Rounds) |-> One1(t, r)])])
ASSUME ndJsonSerialize(Out, Plan)
ASSUME PrintT(<<"PLAN", Len(Plan)>>)
VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
=============================================================================
