----------------------------- MODULE Plan_C01 ------------------------------
(* Client behaviours for the matrix product: all transposition pairs x     *)
(* scalar classes exhaustively, shapes / strides / data sampled.           *)
EXTENDS PlanLib
Types == <<"MD", "BD", "MF", "BF", "M32", "M64", "B32", "B64", "ZD", "MI", "ZI">>
Small == {"MI", "ZI"}
Sc == <<"0", "1", "-1", "2", "r", "max">>
Als == <<"1", "-1", "2", "r">>
Bes == <<"0", "1", "-1", "r">>
Pcs == <<"2", "3", "7", "101", "251", "sqrt", "half", "max", "max2", "b11", "b13", "b16", "b20">>
Data == <<"rand", "rand", "max", "alt", "mix", "sparse", "small", "rand", "max", "zero">>
Shapes == <<<<0,3,2>>, <<3,0,2>>, <<3,2,0>>, <<1,1,1>>, <<1,7,5>>, <<7,1,5>>, <<5,7,1>>, <<8,8,8>>, <<16,16,16>>, <<9,17,13>>, <<33,31,35>>>>
Dim(n, d, ty) ==
  LET big == IF ty \in Small THEN 9 ELSE 24
      r == Hash(n, d) % 10
  IN IF r = 0 THEN Hash(n, d + 50) % 3
     ELSE IF r < 6 THEN Rng(1, big, n, d + 60)
     ELSE IF r < 9 THEN Rng(1, 2 * big, n, d + 70)
     ELSE Rng(1, IF ty \in Small THEN 2 * big ELSE 4 * big, n, d + 80)
Case(n, ty, ta, tb, al, be, wide) ==
  LET sh == IF Hash(n, 1) % 8 = 0 THEN Pick(Shapes, n, 2)
            ELSE <<Dim(n, 3, ty), Dim(n, 4, ty), Dim(n, 5, ty)>>
      isZ == ty \in {"ZD", "ZI"}
  IN [op |-> "fgemm", ty |-> ty, n |-> n, seed |-> Seed, pc |-> Pick(Pcs, n, 6), zb |-> IF ty = "ZI" THEN Pick(<<2, 30, 70, 130>>, n, 20) ELSE 6,
      ta |-> ta, tb |-> tb, m |-> sh[1], nn |-> sh[2], k |-> sh[3],
      la |-> Pick(<<0, 0, 1, 5>>, n, 7), lb |-> Pick(<<0, 0, 2, 3>>, n, 8), lc |-> Pick(<<0, 0, 1, 7>>, n, 9),
      mis |-> Pick(<<0, 0, 0, 1, 2, 3>>, n, 10),
      al |-> al, be |-> be,
      dA |-> IF isZ THEN Pick(<<"rand", "sparse", "mix", "rand", "zero">>, n, 11) ELSE Pick(Data, n, 11), dB |-> IF isZ THEN Pick(<<"rand", "rand", "mix", "rand", "zero">>, n, 12) ELSE Pick(Data, n, 12),
      dC |-> Pick(<<"rand", "max", "mix">>, n, 13),
      form |-> Pick(<<"def", "seq", "auto", "wino", "wino", "wino">>, n, 14),
      w |-> Pick(<<0, 1, 1, 2, 2, 3>>, n, 15)]
Sq(n, ty) ==
  [op |-> "fsquare", ty |-> ty, n |-> n, seed |-> Seed, pc |-> Pick(<<"2", "3", "101", "sqrt", "half", "max">>, n, 6), zb |-> 4,
   ta |-> Pick(Bools, n, 1), nn |-> Rng(0, 20, n, 2), la |-> Pick(<<0, 1>>, n, 3), lc |-> Pick(<<0, 3>>, n, 4),
   ip |-> IF ty \in {"MD", "BD", "MF", "BF"} THEN Hash(n, 5) % 2 ELSE 0,
   dA |-> Pick(<<"rand", "max">>, n, 7), dC |-> "rand", al |-> Pick(Als, n, 8), be |-> Pick(Bes, n, 9)]
Rounds == IF Thorough THEN 150 ELSE 12
Idx(r, t, a, b, x, y) == ((((r * 16 + t) * 2 + a) * 2 + b) * 8 + x) * 8 + y
Gemms == Flatten([t \in 1..Len(Types) |->
   Flatten([r \in 1..(IF Types[t] \in Small THEN (Rounds + 1) \div 2 ELSE Rounds) |->
     LET N == Len(Als) * Len(Bes) * 4
     IN [q \in 1..N |->
        LET z == q - 1
            x == (z % Len(Als)) + 1
            y == ((z \div Len(Als)) % Len(Bes)) + 1
            f == z \div (Len(Als) * Len(Bes))
        IN Case(Idx(r, t, f % 2, f \div 2, x, y), Types[t], f % 2 = 1, f \div 2 = 1, Als[x], Bes[y], FALSE)]])])
Sqs == Flatten([t \in 1..8 |-> [i \in 1..(IF Thorough THEN 100 ELSE 12) |-> Sq(900000 + 100 * t + i, Types[t])]])
(* multiprecision products with saturated operands, every bit size: the exact value comes as close as possible to
   the bound from which the residue basis is chosen *)
Sat(n, ty, bits) ==
  [op |-> "fgemm", ty |-> ty, n |-> n, seed |-> Seed, pc |-> "b" \o ToString(bits), zb |-> bits, ta |-> Pick(Bools, n, 1), tb |-> Pick(Bools, n, 2),
   m |-> 2, nn |-> 2, k |-> Rng(1, 9, n, 3), la |-> 0, lb |-> 0, lc |-> 0, mis |-> 0, al |-> Pick(<<"1", "1", "1", "-1", "max">>, n, 4),
   be |-> Pick(<<"0", "1">>, n, 5), dA |-> "max", dB |-> Pick(<<"max", "alt">>, n, 6), dC |-> "max", form |-> "def", w |-> 0]
SatBits == IF Thorough THEN 600 ELSE 160
SatReps == IF Thorough THEN 20 ELSE 3
Sats == Flatten([r \in 1..SatReps |-> [b \in 1..(2 * SatBits) |-> LET z == b - 1 IN Sat(950000 + 2000 * r + b, IF z % 2 = 0 THEN "ZI" ELSE "MI", (z \div 2) + 3)]])
Plan == Gemms \o Sqs \o Sats
ASSUME ndJsonSerialize(Out, Plan)
ASSUME PrintT(<<"PLAN", Len(Plan)>>)
VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
=============================================================================
