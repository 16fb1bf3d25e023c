----------------------------- MODULE Plan_C04 ------------------------------
(* Client behaviours for fgemv, fger, ftrsv, ftrmv.                        *)
EXTENDS PlanLib
Types == <<"MD", "BD", "MF", "BF", "M32", "M64", "B32", "B64", "ZD", "Z64", "MI", "ZI", "MR78">>
IsZ(ty) == ty \in {"ZD", "Z64", "ZI"}
IsBig(ty) == ty \in {"MI", "ZI", "MR78"}
NoTri(ty) == IsZ(ty) \/ ty = "MR78"
Als == <<"0", "1", "-1", "2", "r", "max">>
Bes == <<"0", "1", "-1", "r">>
Pcs == <<"2", "3", "7", "101", "251", "sqrt", "half", "max", "max", "max2", "b11", "b13", "b16", "b20">>
Data == <<"rand", "rand", "max", "alt", "mix", "small", "min", "sparse">>
ZData == <<"rand", "rand", "mix", "small">>
Dim(n, d, ty) == LET r == Hash(n, d) % 12
                     b == IF IsBig(ty) THEN 8 ELSE 20
                 IN IF r = 0 THEN 0 ELSE IF r = 1 THEN 1 ELSE IF r < 8 THEN Rng(2, b, n, d + 30) ELSE IF r < 11 THEN Rng(2, 2 * b, n, d + 40) ELSE Rng(1, 5 * b, n, d + 50)
Base(n, ty, op) ==
  [op |-> op, ty |-> ty, n |-> n, seed |-> Seed, pc |-> Pick(Pcs, n, 6), zb |-> IF ty = "ZI" THEN Pick(<<2, 30, 70, 130>>, n, 20) ELSE Pick(<<1, 4, 7>>, n, 20),
   m |-> Dim(n, 1, ty), nn |-> Dim(n, 2, ty), la |-> Pick(<<0, 0, 1, 5>>, n, 7), ix |-> Pick(<<1, 1, 2, 3>>, n, 8), iy |-> Pick(<<1, 1, 2, 3>>, n, 9),
   mis |-> Pick(<<0, 0, 1, 2, 3>>, n, 10), mis2 |-> Pick(<<0, 1, 2>>, n, 11), form |-> Hash(n, 12) % 2,
   dA |-> IF IsZ(ty) THEN Pick(ZData, n, 13) ELSE Pick(Data, n, 13), dB |-> IF IsZ(ty) THEN Pick(ZData, n, 14) ELSE Pick(Data, n, 14), dC |-> Pick(<<"rand", "max", "mix">>, n, 15)]
Gemv(n, ty, ta, al, be) == Base(n, ty, "fgemv") @@ [ta |-> ta, al |-> al, be |-> be]
Ger(n, ty, al) == Base(n, ty, "fger") @@ [al |-> al, be |-> "1"]
Tri(n, ty, op, up, ta, unit) == Base(n, ty, op) @@ [al |-> "1", be |-> "1", up |-> up, ta |-> ta, unit |-> unit]
Rounds == IF Thorough THEN 100 ELSE 9
B(k) == k % 2 = 1
One1(t, r) ==
  LET ty == Types[t]
      base == (t * 200 + r) * 200
      g == [q \in 1..48 |-> Gemv(base + q, ty, B(q), Als[(((q - 1) \div 2) % 6) + 1], Bes[((q - 1) \div 12) + 1])]
      h == [q \in 1..12 |-> Ger(base + 50 + q, ty, Als[((q - 1) % 6) + 1])]
      i == IF NoTri(ty) THEN <<>> ELSE [q \in 1..16 |-> Tri(base + 70 + q, ty, IF q <= 8 THEN "ftrsv" ELSE "ftrmv", B(q), B(q \div 2), B(q \div 4))]
  IN g \o h \o i
Plan == Flatten([t \in 1..Len(Types) |-> Flatten([r \in 1..(IF IsBig(Types[t]) THEN (Rounds + 1) \div 2 ELSE Rounds) |-> One1(t, r)])])
ASSUME ndJsonSerialize(Out, Plan)
ASSUME PrintT(<<"PLAN", Len(Plan)>>)
VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
=============================================================================
