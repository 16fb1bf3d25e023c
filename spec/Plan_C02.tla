----------------------------- MODULE Plan_C02 ------------------------------
(* Client behaviours for delayed reductions: for every accumulation length *)
(* T the largest modulus for which T products fit in the representation    *)
(* (and the ones around it), inner dimensions around multiples of T,       *)
(* adversarial data (all operands at the extreme of the range, odd so that *)
(* a lost low bit shows, sign patterns that add up in Winograd's schedules,*)
(* maximal growth in triangular solves).                                   *)
EXTENDS PlanLib
Types == <<"MD", "BD", "MF", "BF", "M32", "M64", "B32", "B64">>
Lims(ty) == CASE ty \in {"MD", "BD"} -> <<"d">> [] ty \in {"MF", "BF"} -> <<"f", "f", "d">> [] ty \in {"M32", "B32"} -> <<"d", "i", "l", "f">> [] OTHER -> <<"l", "l", "d">>
Ts == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 48, 63, 64, 65, 90, 128>>
Tof(n) == Pick(Ts, n, 41)
Pcs(n, ty) == LET r == Hash(n, 42) % 10
              IN IF r = 0 THEN "max" ELSE IF r = 1 THEN "max2" ELSE IF r = 2 THEN Pick(<<"half", "third", "sqrt", "3", "2", "5">>, n, 43)
                 ELSE Pick(<<"k", "K", "K">>, n, 44) \o Pick(Lims(ty), n, 45) \o ToString(Tof(n))
Kof(n) == LET t == Tof(n)
              r == Hash(n, 46) % 8
              v == IF r = 0 THEN t - 1 ELSE IF r < 3 THEN t + 1 ELSE IF r = 3 THEN t ELSE IF r = 4 THEN 2 * t + 1 ELSE IF r = 5 THEN 3 * t ELSE IF r = 6 THEN t + Rng(0, 9, n, 47) ELSE Rng(1, 140, n, 48)
          IN IF v > 220 THEN 220 ELSE IF v < 1 THEN 1 ELSE v
Data == <<"odd", "odd", "odd", "alt", "max", "quad", "altr", "altc", "mix">>
Als == <<"1", "1", "-1", "2", "r", "max">>
Bes == <<"0", "1", "1", "-1", "r", "max">>
Dim(n, d) == Rng(1, 7, n, d)
Com(n, ty, op, h) ==
  [op |-> op, h |-> h, ty |-> ty, n |-> n, seed |-> Seed, pc |-> Pcs(n, ty), al |-> Pick(Als, n, 3), be |-> Pick(Bes, n, 4), la |-> 0, lb |-> 0, lc |-> 0,
   mis |-> Pick(<<0, 0, 1>>, n, 10), mis2 |-> 0, dA |-> Pick(Data, n, 13), dB |-> Pick(Data, n, 14), dC |-> Pick(<<"odd", "max", "alt", "rand">>, n, 15), ta |-> (Hash(n, 16) % 2 = 0), tb |-> (Hash(n, 17) % 2 = 0)]
Gemm(n, ty) == LET w == Pick(<<0, 0, 1, 1, 2, 3>>, n, 18)
                   z == CASE w = 0 -> 1 [] w = 1 -> 2 [] w = 2 -> 4 [] OTHER -> 8
                   k == Kof(n)
               IN Com(n, ty, "fgemm", "gemm") @@ [m |-> Dim(n, 1) + z * Rng(1, 3, n, 5), nn |-> Dim(n, 2) + z * Rng(1, 3, n, 6), k |-> IF w > 0 /\ k < 40 /\ Hash(n, 7) % 2 = 0 THEN k * z + (Hash(n, 8) % 2) ELSE IF k < z THEN z ELSE k,
                                                 form |-> Pick(<<"def", "seq", "auto", "wino", "wino", "wino", "wino">>, n, 19), w |-> w]
Sq(n, ty) == [Com(n, ty, "fsquare", "gemm") @@ [nn |-> IF Kof(n) > 40 THEN 40 ELSE Kof(n), ip |-> 0] EXCEPT !.dC = "max"]
Gemv(n, ty) == LET ta == Hash(n, 16) % 2 = 0
               IN Com(n, ty, "fgemv", "l2") @@ [m |-> IF ta THEN Kof(n) ELSE Dim(n, 1), nn |-> IF ta THEN Dim(n, 1) ELSE Kof(n), ix |-> Pick(<<1, 1, 2>>, n, 8), iy |-> 1, form |-> Hash(n, 12) % 2]
Ger(n, ty) == Com(n, ty, "fger", "l2") @@ [m |-> Dim(n, 1), nn |-> Dim(n, 2), ix |-> 1, iy |-> 1, form |-> 0]
Dot(n, ty) == Com(n, ty, "fdot", "dot") @@ [m |-> Kof(n), ix |-> Pick(<<1, 1, 2>>, n, 8), iy |-> Pick(<<1, 1, 2>>, n, 9)]
Trsv(n, ty) == [Com(n, ty, Pick(<<"ftrsv", "ftrmv">>, n, 7), "l2") @@ [nn |-> IF Kof(n) > 60 THEN 60 ELSE Kof(n), ix |-> 1, up |-> (Hash(n, 21) % 2 = 0), unit |-> (Hash(n, 22) % 2 = 0)] EXCEPT !.al = "1"]
(* triangular solve and product: small moduli give large unreduced blocks *)
Tri(n, ty) ==
  LET left == Hash(n, 23) % 2 = 0
      d == IF Kof(n) > 60 THEN 60 ELSE Kof(n)
      solve == Hash(n, 24) % 3 # 0
      wd == Pick(<<"worst", "worst", "odd", "alt", "max", "rand">>, n, 25)
  IN [Com(n, ty, IF solve THEN "ftrsm" ELSE Pick(<<"ftrmm", "ftrmm3">>, n, 26), "tri") @@
      [left |-> left, up |-> (Hash(n, 27) % 2 = 0), unit |-> (Hash(n, 28) % 3 # 0), unitB |-> FALSE, m |-> IF left THEN d ELSE Dim(n, 1), nn |-> IF left THEN Dim(n, 1) ELSE d, form |-> Hash(n, 12) % 2, th |-> 0, dg |-> Pick(<<"1", "1", "r", "-1">>, n, 29)]
      EXCEPT !.dA = IF solve THEN wd ELSE @, !.dB = IF solve THEN (IF wd = "worst" THEN Pick(<<"worstB", "odd", "alt">>, n, 30) ELSE "odd") ELSE @,
             !.pc = IF solve THEN Pick(<<"2", "3", "5", "7", "11", "13", "17", "23", "31", "53", "101", "211", "401", "997", "2039", "b10", "b12", "b13", "b14", "b16", "b18", "b20", "sqrt", "third", "half", "max">>, n, 31) ELSE @]
Syrk(n, ty) == Com(n, ty, Pick(<<"fsyrk", "fsyrk", "fsyr2k", "fsyrkd">>, n, 7), "sym") @@
   [up |-> (Hash(n, 21) % 2 = 0), form |-> Pick(<<0, 1, 2, 3>>, n, 32), nn |-> Dim(n, 1) + 3, k |-> Kof(n), id |-> 0, th |-> 0, w |-> Pick(<<0, 1, 2>>, n, 17), sk |-> "rand", junk |-> 0]
Lu(n, ty) == Com(n, ty, Pick(<<"pluq", "ludivine">>, n, 7), "lu") @@
   [row |-> (Hash(n, 21) % 2 = 0), unit |-> (Hash(n, 22) % 2 = 0), tile |-> (Hash(n, 23) % 2 = 0), up |-> TRUE, only |-> FALSE, inpl |-> FALSE, m |-> Rng(8, 34, n, 1), nn |-> Rng(8, 34, n, 2), bc |-> Pick(<<0, 0, 8, 13, 40>>, n, 33),
    kind |-> Pick(<<"rand", "full", "rpm", "grp">>, n, 34), d |-> Pick(<<"odd", "alt", "max", "mix">>, n, 35)]
Rounds == IF Thorough THEN 60 ELSE 5
One1(t, r) ==
  LET ty == Types[t]
      base == (t * 500 + r) * 300
  IN [q \in 1..60 |-> Gemm(base + q, ty)] \o [q \in 1..3 |-> Sq(base + 65 + q, ty)] \o [q \in 1..20 |-> Gemv(base + 70 + q, ty)] \o [q \in 1..2 |-> Ger(base + 95 + q, ty)]
     \o [q \in 1..16 |-> Dot(base + 100 + q, ty)] \o [q \in 1..6 |-> Trsv(base + 130 + q, ty)] \o [q \in 1..40 |-> Tri(base + 140 + q, ty)] \o [q \in 1..12 |-> Syrk(base + 190 + q, ty)]
     \o [q \in 1..6 |-> Lu(base + 210 + q, ty)]
Plan == Flatten([t \in 1..Len(Types) |-> Flatten([r \in 1..Rounds |-> One1(t, r)])])
ASSUME ndJsonSerialize(Out, Plan)
ASSUME PrintT(<<"PLAN", Len(Plan)>>)
VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
=============================================================================
