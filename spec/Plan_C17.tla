------------------------------ MODULE Plan_C17 -----------------------------
(* Client behaviours for the sparse formats and products.                  *)
EXTENDS PlanLib
Types == <<"MD", "BD", "MF", "BF", "M32", "M64", "B32", "B64", "ZD", "ZI", "MI">>
IsZ(ty) == ty \in {"ZD", "ZI"}
IsBig(ty) == ty \in {"ZI", "MI"}
Pcs == <<"2", "3", "7", "101", "251", "sqrt", "half", "max", "max", "max2", "b11", "b13">>
Data == <<"rand", "rand", "max", "alt", "mix", "small", "min">>
ZData == <<"rand", "rand", "mix", "small">>
(* 0 CSR 1 COO 2 ELL 3 HYB_ZO 4 ELL_simd 5 SELL 6 CSR_ZO 7 COO_ZO 10 CSR_HYB 11 ELL_ZO (rows of equal length) *)
Fmts == <<0, 1, 2, 3, 6, 7, 10, 11>>
Simd(f) == f \in {4, 5, 8, 9}
Zo(f) == f \in {6, 7, 8, 9, 11}
D(n, d, b) == LET r == Hash(n, d) % 10 IN IF r = 0 THEN 1 ELSE IF r < 8 THEN Rng(2, b, n, d + 30) ELSE Rng(1, 2 * b, n, d + 40)
Case(n, ty, f, mm, be) ==
  LET b == IF IsBig(ty) THEN 6 ELSE 14 IN
  [op |-> IF mm THEN "spmm" ELSE "spmv", ty |-> ty, n |-> n, seed |-> Seed, pc |-> Pick(Pcs, n, 6), zb |-> IF ty = "ZI" THEN Pick(<<2, 30, 70>>, n, 20) ELSE Pick(<<1, 4, 7>>, n, 20),
   fmt |-> f, zo |-> Zo(f), cs |-> Pick(<<"1", "1", "-1", "2", "r">>, n, 3), m |-> D(n, 1, b), nn |-> D(n, 2, b), bs |-> IF mm THEN (IF Hash(n, 17) % 3 = 0 /\ ~IsBig(ty) THEN Pick(<<8, 16, 16, 24, 17, 12, 20>>, n, 18) ELSE Rng(1, 9, n, 4)) ELSE 1,
   la |-> Pick(<<0, 0, 1, 5>>, n, 7), lb |-> Pick(<<0, 0, 1, 3>>, n, 8), mis |-> Pick(<<0, 0, 1, 2, 3>>, n, 10), be |-> be, pm |-> Hash(n, 15) % 2,
   pat |-> IF f = 11 THEN Pick(<<"one", "uni", "dense", "uni", "empty">>, n, 11) ELSE Pick(<<"rand", "rand", "dense", "one", "few", "few", "onerow", "half", "empty">>, n, 11),
   d |-> IF IsZ(ty) THEN Pick(ZData, n, 13) ELSE Pick(Data, n, 13), dx |-> IF IsZ(ty) THEN Pick(ZData, n, 14) ELSE Pick(Data, n, 14), dy |-> IF IsZ(ty) THEN "rand" ELSE Pick(<<"rand", "max", "mix">>, n, 16)]
Rounds == IF Thorough THEN 60 ELSE 6
Bes == <<"0", "1", "-1", "r">>
One1(t, r) ==
  LET ty == Types[t]
      base == (t * 100 + r) * 400
  IN Flatten([i \in 1..Len(Fmts) |-> Flatten([q \in 1..4 |->
       <<Case(base + 30 * i + q, ty, Fmts[i], FALSE, Bes[q])>> \o (IF Simd(Fmts[i]) THEN <<>> ELSE <<Case(base + 30 * i + 10 + q, ty, Fmts[i], TRUE, Bes[q])>>)])])
Plan == Flatten([t \in 1..Len(Types) |-> Flatten([r \in 1..(IF IsBig(Types[t]) THEN (Rounds + 1) \div 2 ELSE Rounds) |-> One1(t, r)])])
ASSUME ndJsonSerialize(Out, Plan)
ASSUME PrintT(<<"PLAN", Len(Plan)>>)
VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
=============================================================================
