----------------------------- MODULE Plan_C14 ------------------------------
(* Parallel routines under a controlled scheduler: problem x number of     *)
(* threads and of parts x schedule (seed, deferral probability, preemption *)
(* density).  The same specification as for the sequential routines        *)
(* decides; the log of some schedules is validated against Omp.tla.        *)
EXTENDS PlanLib
Big == {"MI_1", "ZI_1", "MI_2", "MI_3"}
IsBig(ty) == ty \in Big
Pcs == <<"2", "3", "7", "101", "251", "sqrt", "half", "max", "max2", "b11", "b13", "b20">>
Data == <<"rand", "rand", "max", "alt", "mix", "small", "sparse">>
Kinds == <<"rand", "rpm", "rpm", "rpm", "full", "full", "lowrank", "grp", "rev", "dup", "zero">>
Als == <<"1", "-1", "r", "1", "0">>
Bes == <<"0", "1", "-1", "r">>
Dim(n, d, b) == LET r == Hash(n, d) % 20
                IN IF r = 0 THEN 0 ELSE IF r = 1 THEN 1 ELSE IF r < 12 THEN Rng(2, b, n, d + 30) ELSE Rng(b \div 2, 2 * b, n, d + 40)
Sched(n) == [nt |-> Pick(<<1, 2, 2, 3, 3, 4, 4, 5, 8>>, n, 90), th |-> Pick(<<1, 2, 3, 4, 4, 5, 6, 7, 8, 12>>, n, 91), pre |-> Pick(<<0, 3, 20, 200, 2000>>, n, 92),
             defer |-> Pick(<<100, 90, 60, 30, 0>>, n, 93), sch |-> n, log |-> IF Hash(n, 94) % 5 = 0 THEN 1 ELSE 0]
Common(n, ty, op, form, b) ==
  [op |-> op, ty |-> ty, n |-> n, seed |-> Seed, pc |-> Pick(Pcs, n, 6), zb |-> Pick(<<2, 30, 70>>, n, 20), form |-> form,
   m |-> Dim(n, 1, b), nn |-> Dim(n, 2, b), k |-> Dim(n, 3, b), la |-> Pick(<<0, 0, 1, 5>>, n, 7), lb |-> Pick(<<0, 0, 2, 3>>, n, 8), lc |-> Pick(<<0, 0, 1, 7>>, n, 9)] @@ Sched(n)
Gemm(n, ty, form) ==
  [ta |-> Pick(Bools, n, 11), tb |-> Pick(Bools, n, 12), al |-> Pick(Als, n, 13), be |-> IF form = 10 THEN "0" ELSE Pick(Bes, n, 14), w |-> Pick(<<0, 0, 1, 2>>, n, 15),
   dA |-> Pick(Data, n, 16), dB |-> Pick(Data, n, 17), dC |-> Pick(<<"rand", "max">>, n, 18)] @@ Common(n, ty, "fgemm", form, IF IsBig(ty) THEN 7 ELSE 12)
L2(n, ty, op, form) ==
  [ta |-> Pick(Bools, n, 11), up |-> Pick(Bools, n, 12), left |-> Pick(Bools, n, 23), unit |-> Pick(Bools, n, 24), al |-> Pick(Als, n, 13), be |-> Pick(Bes, n, 14),
   dA |-> Pick(Data, n, 16), dB |-> Pick(Data, n, 17), dC |-> "rand", sk |-> Pick(<<"grp", "grp", "grp", "rand", "rpm">>, n, 25), bc |-> Pick(<<1, 2, 3, 5>>, n, 26),
   r1 |-> Hash(n, 27) % 4, r2 |-> Hash(n, 28) % 4, r3 |-> Hash(n, 29) % 4, r4 |-> Hash(n, 31) % 4, ex |-> Hash(n, 32) % 4] @@ Common(n, ty, op, form, IF IsBig(ty) THEN 6 ELSE 12)
Pk(n, ty, op, form) ==
  [row |-> Pick(Bools, n, 11), unit |-> Pick(Bools, n, 12), red |-> Pick(Bools, n, 13), tr |-> Pick(Bools, n, 14), kind |-> Pick(Kinds, n, 15), d |-> Pick(Data, n, 16), bc |-> 0]
  @@ Common(n, ty, op, form, IF IsBig(ty) THEN 8 ELSE 14)
G1 == IF Thorough THEN <<"MD_1", "BF_1", "M64_1", "B32_1", "MI_1", "ZI_1", "BD_1", "MF_1", "M32_1", "B64_1">> ELSE <<"MD_1", "BF_1", "M64_1", "B32_1", "MI_1", "ZI_1">>
G2 == IF Thorough THEN <<"MD_2", "BF_2", "M64_2", "MI_2", "BD_2", "MF_2", "B32_2">> ELSE <<"MD_2", "BF_2", "M64_2", "MI_2">>
G3 == IF Thorough THEN <<"MD_3", "B32_3", "M64_3", "MI_3", "BD_3", "MF_3">> ELSE <<"MD_3", "B32_3", "M64_3", "MI_3">>
G4 == IF Thorough THEN <<"MD_4", "M64_4", "MF_4", "BD_4">> ELSE <<"MD_4", "M64_4">>
Rounds == IF Thorough THEN 40 ELSE 6
NF(ty) == IF IsBig(ty) THEN 7 ELSE IF ty = "MD_1" THEN 11 ELSE 10
R1 == Flatten([t \in 1..Len(G1) |-> Flatten([r \in 1..Rounds |-> [q \in 1..(2 * NF(G1[t])) |-> Gemm((t * 100 + r) * 100 + q, G1[t], (q - 1) % NF(G1[t]))]])])
L2Calls == <<<<"fgemv", 0>>, <<"fgemv", 0>>, <<"fgemv", 1>>, <<"fgemv", 2>>, <<"fdot", 0>>, <<"fdot", 1>>, <<"fdot", 2>>, <<"fzero", 0>>, <<"ftrsm", 0>>, <<"ftrsm", 1>>, <<"ftrsm", 2>>, <<"ftrsm", 2>>, <<"ftrsm", 3>>, <<"fsyrkd", 0>>,
   <<"fsytrf", 0>>, <<"fsytrf", 0>>, <<"applyp", 0>>, <<"apps", 0>>, <<"appt", 0>>, <<"pfadd", 0>>, <<"pfsub", 0>>, <<"pfaddin", 0>>, <<"pfsubin", 0>>>>
R2 == Flatten([t \in 1..Len(G2) |-> Flatten([r \in 1..Rounds |-> [q \in 1..(2 * Len(L2Calls)) |-> LET z == q - 1
   IN L2(200000 + (t * 100 + r) * 100 + q, G2[t], L2Calls[(z % Len(L2Calls)) + 1][1], L2Calls[(z % Len(L2Calls)) + 1][2])]])])
PkCalls == <<<<"pluq", 0>>, <<"pluq", 0>>, <<"pluq", 0>>, <<"pluq", 1>>, <<"rank", 0>>, <<"det", 0>>, <<"det", 1>>, <<"solve", 0>>, <<"rankprofile", 0>>, <<"echelon", 0>>, <<"echelon", 0>>, <<"echelon", 0>>, <<"echelon", 0>>>>
R3 == Flatten([t \in 1..Len(G3) |-> Flatten([r \in 1..Rounds |-> [q \in 1..(2 * Len(PkCalls)) |-> LET z == q - 1
   IN Pk(400000 + (t * 100 + r) * 100 + q, G3[t], PkCalls[(z % Len(PkCalls)) + 1][1], PkCalls[(z % Len(PkCalls)) + 1][2])]])])
Sp(n, ty) == [bs |-> Rng(1, 9, n, 3), fmt |-> IF ty \in {"MD_4", "M64_4"} /\ Hash(n, 5) % 3 = 0 THEN 6 ELSE 0, zo |-> IF ty \in {"MD_4", "M64_4"} /\ Hash(n, 5) % 3 = 0 THEN TRUE ELSE FALSE,
   d |-> Pick(<<"rand", "max", "mix">>, n, 16), dx |-> Pick(<<"rand", "max">>, n, 17), dy |-> "rand", pat |-> Pick(<<"rand", "empty", "dense", "few", "onerow">>, n, 18), be |-> Pick(Bes, n, 14), cs |-> Pick(<<"1", "-1", "r">>, n, 13),
   pm |-> Hash(n, 19) % 2, m |-> Rng(1, 24, n, 1), nn |-> Rng(1, 24, n, 2)] @@ Common(n, ty, "spmm", 0, 14)
R4 == Flatten([t \in 1..Len(G4) |-> [r \in 1..(8 * Rounds) |-> Sp(600000 + t * 1000 + r, G4[t])]])
Plan == R1 \o R2 \o R3 \o R4
ASSUME ndJsonSerialize(Out, Plan)
ASSUME PrintT(<<"PLAN", Len(Plan)>>)
VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
=============================================================================
