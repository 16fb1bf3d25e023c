----------------------------- MODULE Plan_C06 ------------------------------
(* Client behaviours for symmetric updates (fsyrk in all its algorithms,   *)
(* with diagonal / block diagonal scaling, fsyr2k) and the symmetric       *)
(* factorizations, on symmetric matrices of prescribed rank profile.       *)
EXTENDS PlanLib
Types == <<"MD", "BD", "MF", "BF", "M32", "M64", "B32", "B64", "MI", "MD_L", "M64_L">>
IsBig(ty) == ty \in {"MI"}
Als == <<"1", "-1", "2", "r", "max">>
Bes == <<"0", "1", "-1", "r">>
Pcs == <<"3", "7", "101", "251", "sqrt", "half", "max", "max", "max2", "b11", "b13", "b16", "b20", "b23">>
Data == <<"rand", "rand", "max", "alt", "mix", "small", "sparse">>
Dim(n, d, ty) == IF IsL(ty) THEN DimL(n, d) ELSE LET r == Hash(n, d) % 16
                     b == IF IsBig(ty) THEN 6 ELSE 18
                 IN IF r = 0 THEN 0 ELSE IF r = 1 THEN 1 ELSE IF r < 9 THEN Rng(2, b, n, d + 30) ELSE IF r < 15 THEN Rng(2, 2 * b, n, d + 40) ELSE Rng(2, 3 * b, n, d + 50)
Base(n, ty, op, up, ta, form) ==
  [op |-> op, ty |-> ty, n |-> n, seed |-> Seed, pc |-> IF op \in {"fsyrk", "fsyrkd", "fsyr2k", "fsytrf"} /\ Hash(n, 88) % 12 = 0 THEN "2" ELSE Pick(Pcs, n, 6),
   up |-> up, ta |-> ta, form |-> form, al |-> IF op \in {"fsyrkd"} THEN Pick(Als, n, 3) ELSE IF op = "fsyrk" /\ form = 0 /\ Hash(n, 98) % 10 = 0 THEN "0" ELSE Pick(Als, n, 3), be |-> Pick(Bes, n, 4),
   nn |-> Dim(n, 1, ty), k |-> Dim(n, 2, ty), la |-> Pick(<<0, 0, 1, 5>>, n, 7), lb |-> Pick(<<0, 0, 1, 3>>, n, 8), lc |-> Pick(<<0, 0, 2, 3>>, n, 9),
   id |-> Pick(<<0, 0, 1, 2>>, n, 15), mis |-> Pick(<<0, 0, 1, 2, 3>>, n, 10), mis2 |-> Pick(<<0, 1, 2>>, n, 11), th |-> Pick(<<0, 0, 2, 3, 8, 13>>, n, 16), w |-> Pick(<<0, 1, 1, 2, 3>>, n, 17),
   sk |-> Pick(IF op = "fsytrf_rpm" THEN <<"rpm", "rpm", "rpmfull", "antid", "diag0", "grp", "zero", "rand">> ELSE <<"grp", "grp", "grp", "rand", "rpm", "rpmfull">>, n, 18),
   junk |-> IF op = "fsytrf_rpm" THEN 0 ELSE Hash(n, 19) % 2, dA |-> Pick(Data, n, 13), dB |-> Pick(Data, n, 14)]
Rounds == IF Thorough THEN 100 ELSE 10
B(k) == k % 2 = 1
One1(t, r) ==
  LET ty == Types[t]
      base == (t * 200 + r) * 200
      K(q0, op, form) == [q \in 1..4 |-> Base(base + q0 + q, ty, op, B(q), B(q \div 2), form)]
  IN (IF IsBig(ty) THEN << >> ELSE K(0, "fsyrk", 0) \o K(10, "fsyrk", 1) \o K(20, "fsyrk", 2) \o K(30, "fsyrk", 3))
     \o K(40, "fsyr2k", 0) \o K(50, "fsyrkd", 0) \o K(60, "fsyrkd", 1) \o K(70, "fsyrkd", 2) \o K(80, "fsyrkd", 3)
     \o K(90, "fsytrf", 0) \o K(100, "fsytrf", 1) \o K(110, "fsytrf_nu", 0) \o K(120, "fsytrf_rpm", 0) \o K(130, "fsytrf_rpm", 1)
Plan == Flatten([t \in 1..Len(Types) |-> Flatten([r \in 1..(IF IsL(Types[t]) THEN LRounds ELSE IF IsBig(Types[t]) THEN (Rounds + 1) \div 2 ELSE Rounds) |-> One1(t, r)])])
ASSUME ndJsonSerialize(Out, Plan)
ASSUME PrintT(<<"PLAN", Len(Plan)>>)
VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
=============================================================================
