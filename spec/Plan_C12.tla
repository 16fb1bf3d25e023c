----------------------------- MODULE Plan_C12 ------------------------------
(* Client behaviours for characteristic and minimal polynomials: every     *)
(* algorithm variant, product and factor-list interfaces, matrices with    *)
(* scalar, diagonal, nilpotent, repeated-companion and random structure.   *)
EXTENDS PlanLib
Types == <<"MD", "BD", "MF", "BF", "M32", "M64", "B32", "B64", "MI", "ZI", "MD_L", "M64_L", "BF_L">>
IsBig(ty) == ty \in {"MI", "ZI"}
Pcs == <<"2", "3", "5", "7", "17", "101", "251", "sqrt", "half", "max", "max2", "b11", "b20", "b23">>
Kinds == <<"rand", "rpm", "full", "lowrank", "zero", "scalar", "diag", "nilp", "blocks", "blocks", "comp", "invol", "rev", "dup">>
Data == <<"rand", "rand", "max", "alt", "mix", "small", "sparse">>
Dim(n, d, ty) == IF IsL(ty) THEN DimL(n, d) ELSE LET r == Hash(n, d) % 24
                     b == IF IsBig(ty) THEN 5 ELSE 9
                 IN IF r = 0 THEN 0 ELSE IF r = 1 THEN 1 ELSE IF r < 15 THEN Rng(2, b, n, d + 30) ELSE IF r < 22 THEN Rng(2, 2 * b, n, d + 40) ELSE Rng(2, 3 * b, n, d + 50)
Base(n, ty, op, tag, form) ==
  [op |-> op, ty |-> ty, n |-> n, seed |-> Seed, pc |-> Pick(Pcs, n, 6), tag |-> tag, form |-> form, zb |-> Pick(<<1, 3, 5, 17, 60>>, n, 3),
   nn |-> Dim(n, 2, ty), la |-> Pick(<<0, 0, 1, 5>>, n, 7), lb |-> Pick(<<0, 0, 1, 3>>, n, 8), dv |-> Pick(<<"rand", "rand", "sparse", "small">>, n, 9),
   mis |-> Pick(<<0, 0, 1, 2, 3>>, n, 10), kind |-> Pick(Kinds, n, 13), d |-> Pick(Data, n, 14), deg |-> Pick(<<0, 0, 1, 2, 3, 5, 8>>, n, 15)]
Rounds == IF Thorough THEN 130 ELSE 11
Tags == <<0, 1, 2, 3, 3>>
One1(t, r) ==
  LET ty == Types[t]
      base == (t * 200 + r) * 200
  IN Flatten([g \in 1..Len(Tags) |-> [q \in 1..4 |-> Base(base + 10 * g + q, ty, "charpoly", Tags[g], q % 2)]])
     \o (IF ty = "ZI" THEN << >> ELSE [q \in 1..6 |-> Base(base + 100 + q, ty, "minpoly", 0, 0)] \o [q \in 1..6 |-> Base(base + 110 + q, ty, "mvminpoly", 0, 0)])
ZBits == IF Thorough THEN 120 ELSE 40
ZHads == Flatten([r \in 1..(IF Thorough THEN 6 ELSE 2) |-> [b \in 1..ZBits |-> [Base(8000000 + 300 * r + b, "ZI", "charpoly", 0, 0) EXCEPT !.zb = b, !.kind = "had", !.nn = Pick(<<1, 2, 2, 4, 4, 3>>, 300 * r + b, 33)]]])
Plan == ZHads \o Flatten([t \in 1..Len(Types) |-> Flatten([r \in 1..(IF IsL(Types[t]) THEN LRounds ELSE IF IsBig(Types[t]) THEN (Rounds + 1) \div 2 ELSE Rounds) |-> One1(t, r)])])
ASSUME ndJsonSerialize(Out, Plan)
ASSUME PrintT(<<"PLAN", Len(Plan)>>)
VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
=============================================================================
