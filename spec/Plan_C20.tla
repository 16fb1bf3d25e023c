----------------------------- MODULE Plan_C20 ------------------------------
(* Client behaviours for quasi-separable matrices.                         *)
EXTENDS PlanLib
Types == <<"MD", "BD", "MF", "BF", "M32", "M64", "B32", "B64", "MI">>
IsBig(ty) == ty \in {"MI"}
Pcs == <<"2", "3", "3", "7", "101", "251", "sqrt", "half", "max", "b11", "b13", "b23">>
Kinds == <<"dense", "qs", "qs", "qs", "thin", "thin", "anti", "long", "long", "long", "long", "long">>
Dim(n, ty) == LET r == Hash(n, 1) % 20
                  b == IF IsBig(ty) THEN 6 ELSE 9
              IN IF r = 0 THEN 2 ELSE IF r < 15 THEN Rng(3, b, n, 31) ELSE Rng(3, 2 * b, n, 41)
Base(n, ty, op) ==
  [op |-> op, ty |-> ty, n |-> n, seed |-> Seed, pc |-> Pick(Pcs, n, 6), unit |-> (Hash(n, 22) % 2 = 0), up |-> (Hash(n, 23) % 2 = 0),
   nn |-> IF op \in {"compress", "bruhatprod"} /\ Pick(Kinds, n, 13) = "long" THEN Rng(8, IF IsBig(ty) THEN 14 ELSE 22, n, 32) ELSE Dim(n, ty), t |-> Rng(1, 4, n, 3), s |-> IF Hash(n, 4) % 4 = 0 THEN Rng(1, 9, n, 5) ELSE Rng(1, 4, n, 5),
   la |-> Pick(<<0, 0, 1, 5>>, n, 7), lb |-> Pick(<<0, 0, 1, 3>>, n, 8), ly |-> Pick(<<0, 0, 1, 2>>, n, 9), mis |-> Pick(<<0, 0, 1, 2, 3>>, n, 10),
   al |-> Pick(<<"1", "r", "-1", "0", "2">>, n, 11), be |-> Pick(<<"0", "1", "r", "-1">>, n, 12), kind |-> IF op = "bruhat" /\ Hash(n, 13) % 12 = 0 THEN "zero" ELSE Pick(Kinds, n, 13), d |-> Pick(<<"rand", "rand", "max", "alt", "mix", "small">>, n, 14)]
Rounds == IF Thorough THEN 60 ELSE 5
One1(t, r) ==
  LET ty == Types[t]
      base == (t * 200 + r) * 200
  IN [q \in 1..5 |-> Base(base + q, ty, "bruhat")]
     \o [q \in 1..5 |-> Base(base + 20 + q, ty, "compress")]
     \o [q \in 1..6 |-> Base(base + 40 + q, ty, "bruhatprod")]
     \o [q \in 1..3 |-> Base(base + 60 + q, ty, "sss2dense")]
     \o [q \in 1..5 |-> Base(base + 80 + q, ty, "dense2sss")]
     \o [q \in 1..4 |-> Base(base + 100 + q, ty, "sssprod")]
Plan == Flatten([t \in 1..Len(Types) |-> Flatten([r \in 1..(IF IsBig(Types[t]) THEN (Rounds + 1) \div 2 ELSE Rounds) |-> One1(t, r)])])
ASSUME ndJsonSerialize(Out, Plan)
ASSUME PrintT(<<"PLAN", Len(Plan)>>)
VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
=============================================================================
