----------------------------- MODULE Plan_C21 ------------------------------
(* Client behaviours for the certificates: correct claims and claims       *)
(* corrupted in every way for the six checkers (types MD...), and the      *)
(* self-certifying routines with certificates enabled (types MDc...).      *)
EXTENDS PlanLib
Types == <<"MD", "BD", "MF", "BF", "M32", "M64", "B32", "B64", "MI">>
CTypes == <<"MDc", "BDc", "MFc", "M64c", "B32c", "MIc">>
Pcs == <<"2", "3", "5", "101", "101", "sqrt", "half", "max", "b11", "b20", "b23">>
Kinds == <<"rand", "rpm", "rpm", "full", "full", "lowrank", "grp", "rev", "dup", "zero">>
Data == <<"rand", "rand", "max", "alt", "mix", "small", "sparse">>
Als == <<"1", "-1", "2", "r", "0">>
Dim(n, d) == LET r == Hash(n, d) % 24 IN IF r = 0 THEN 0 ELSE IF r = 1 THEN 1 ELSE IF r < 18 THEN Rng(2, 7, n, d + 30) ELSE Rng(2, 14, n, d + 40)
Cors == <<"none", "none", "none", "one", "last", "first", "two", "two2", "row", "col", "swap", "neg", "zero">>
CorP == Cors \o <<"perm", "perm", "perm2", "perm2", "rank", "rank", "det", "det">>
Base(n, ty, op) ==
  [op |-> op, ty |-> ty, n |-> n, seed |-> Seed, pc |-> Pick(Pcs, n, 6), kind0 |-> "gemm", cor |-> "none", h |-> "none", left |-> (Hash(n, 21) % 2 = 0), up |-> (Hash(n, 22) % 2 = 0), ta |-> (Hash(n, 23) % 2 = 0), tb |-> (Hash(n, 24) % 2 = 0), unit |-> (Hash(n, 25) % 2 = 0),
   al |-> Pick(Als, n, 3), be |-> Pick(Als, n, 4), m |-> Dim(n, 1), nn |-> Dim(n, 2), k |-> Dim(n, 5), la |-> Pick(<<0, 0, 1, 5>>, n, 7), lb |-> Pick(<<0, 0, 1, 3>>, n, 8), lc |-> Pick(<<0, 0, 2, 3>>, n, 9),
   mis |-> Pick(<<0, 0, 1, 3>>, n, 10), kind |-> Pick(Kinds, n, 13), d |-> Pick(Data, n, 14)]
Chk(n, ty, k) == [Base(n, ty, "chk") EXCEPT !.kind0 = k, !.cor = IF k \in {"pluq", "det"} THEN Pick(CorP, n, 31) ELSE Pick(Cors, n, 31), !.kind = IF k = "inv" /\ Hash(n, 32) % 3 # 0 THEN "full" ELSE @]
(* the routines themselves *)
X == [bc |-> 0, row |-> FALSE, tile |-> TRUE, only |-> FALSE, inpl |-> FALSE, cons |-> TRUE, form |-> 0, mis2 |-> 0, unitB |-> FALSE, th |-> 0, zb |-> 3, tag |-> 0, deg |-> 0, dv |-> "rand", w |-> 0]
Rt(n, ty, op, h, form) == (([Base(n, ty, op) EXCEPT !.h = h] @@ [dA |-> Pick(Data, n, 33), dB |-> Pick(Data, n, 34), dC |-> "rand"]) @@ [X EXCEPT !.form = form, !.tag = Pick(<<0, 1, 2, 3>>, n, 35)])
Rounds == IF Thorough THEN 60 ELSE 5
One1(t, r) == LET ty == Types[t]
                  b == (t * 200 + r) * 200
  IN Flatten([k \in 1..6 |-> [q \in 1..10 |-> Chk(b + 12 * k + q, ty, <<"gemm", "trsm", "inv", "pluq", "det", "charpoly">>[k])]])
One2(t, r) == LET ty == CTypes[t]
                  b == 5000000 + (t * 200 + r) * 200
  IN [q \in 1..8 |-> [Rt(b + q, ty, "fgemm", "gemm", 0) EXCEPT !.al = Pick(Als, b + q, 41)]]
     \o [q \in 1..8 |-> [Rt(b + 10 + q, ty, "ftrsm", "tri", 0) EXCEPT !.al = Pick(<<"1", "-1", "r">>, b + q, 41)]] \o [q \in 1..8 |-> Rt(b + 20 + q, ty, "pluq", "lu", 0)] \o [q \in 1..9 |-> Rt(b + 30 + q, ty, "invert", "sol", q % 3)]
     \o [q \in 1..4 |-> Rt(b + 40 + q, ty, "det", "sol", q % 2)] \o [q \in 1..6 |-> Rt(b + 50 + q, ty, "charpoly", "poly", 0)] \o [q \in 1..3 |-> Rt(b + 60 + q, ty, "rank", "sol", 0)]
Fix(r) == IF r.h = "gemm" THEN [x \in DOMAIN r \cup {"form"} |-> IF x = "form" THEN "def" ELSE r[x]] ELSE r
P1 == Flatten([t \in 1..Len(Types) |-> Flatten([r \in 1..Rounds |-> One1(t, r)])])
P2 == Flatten([t \in 1..Len(CTypes) |-> Flatten([r \in 1..(2 * Rounds) |-> One2(t, r)])])
PP == P1 \o [i \in DOMAIN P2 |-> Fix(P2[i])]
ASSUME ndJsonSerialize(Out, PP)
ASSUME PrintT(<<"PLAN", Len(PP)>>)
VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
=============================================================================
