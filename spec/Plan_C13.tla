----------------------------- MODULE Plan_C13 ------------------------------
(* Client behaviours on permutations: every LAPACK array of size at most 4 *)
(* in both conversions, compositions and applications (exhaustive), then   *)
(* sampled larger ones across the 32-wide blocks of the applications.      *)
EXTENDS PlanLib
Types == <<"MD", "BD", "MF", "BF", "M32", "M64", "B32", "B64", "MI">>
Data == <<"rand", "max", "alt", "mix">>
Kinds == <<"rand", "rand", "rand", "id", "rot", "one", "rev", "adj">>
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
Base(n, ty, op) ==
  [op |-> op, ty |-> ty, n |-> n, seed |-> Seed, pc |-> Pick(<<"2", "101", "max", "b23">>, n, 6), w |-> -1, w2 |-> -1, kind |-> Pick(Kinds, n, 13), kind2 |-> Pick(Kinds, n, 12),
   m |-> 0, nn |-> 0, r |-> 0, left |-> FALSE, ta |-> FALSE, form |-> 0, ib |-> 0, ie |-> 0, r1 |-> 0, r2 |-> 0, r3 |-> 0, r4 |-> 0, ex |-> 0,
   la |-> Pick(<<0, 0, 1, 5>>, n, 7), mis |-> Pick(<<0, 0, 1, 2, 3>>, n, 10), thr |-> Pick(<<1, 2, 3, 4, 7>>, n, 9), d |-> Pick(Data, n, 14)]
Len1(n, d) == LET r == Hash(n, d) % 20 IN IF r = 0 THEN 0 ELSE IF r = 1 THEN 1 ELSE IF r < 14 THEN Rng(2, 12, n, d + 30) ELSE IF r < 19 THEN Rng(12, 34, n, d + 30) ELSE Rng(35, 70, n, d + 30)
Small(n, d) == LET r == Hash(n, d) % 12 IN IF r = 0 THEN 0 ELSE IF r < 9 THEN Rng(1, 5, n, d + 30) ELSE IF r < 11 THEN Rng(6, 20, n, d + 30) ELSE Rng(21, 70, n, d + 30)
(* exhaustive part *)
Ns == IF Thorough THEN 5 ELSE 4
EL == Flatten([n \in 1..(Ns + 1) |-> Flatten([w \in 1..Fact(n - 1) |-> << [Base(w * 10 + n, "MD", "lap2math") EXCEPT !.nn = n - 1, !.w = w - 1], [Base(w * 10 + n, "MD", "math2lap") EXCEPT !.nn = n - 1, !.w = w - 1] >>])])
EC == Flatten([n \in 1..4 |-> Flatten([w \in 1..Fact(n - 1) |-> Flatten([r1 \in 1..n |-> Flatten([v \in 1..Fact(n - r1) |-> [f \in 1..3 |->
        [Base(100000 + w * 1000 + v * 10 + f, "MD", "compose") EXCEPT !.nn = n - 1, !.w = w - 1, !.r = r1 - 1, !.w2 = v - 1, !.form = f - 1]]])])])])
EA(ty, N) == Flatten([w \in 1..Fact(N) |-> Flatten([q \in 1..4 |-> LET l == q % 2 = 0
                                                                      t == q > 2 IN
        <<[Base(200000 + w * 10 + q, ty, "applyp") EXCEPT !.nn = N, !.m = Rng(1, 4, w, q), !.w = w - 1, !.left = l, !.ta = t, !.ib = Hash(w, q) % 2, !.ie = Hash(w, q + 4) % 2]>>
        \o [R \in 1..(N + 1) |-> [Base(300000 + w * 100 + q * 10 + R, ty, "monapplyp") EXCEPT !.nn = N, !.m = Rng(1, 3, w, q + R), !.w = w - 1, !.left = l, !.ta = t, !.r = R - 1]]])])
Exh == EL \o EC \o EA("MD", 4) \o EA("M64", 3) \o EA("MI", 3) \o (IF Thorough THEN EA("MF", 4) \o EA("MD", 5) ELSE << >>)
(* sampled part *)
Rounds == IF Thorough THEN 60 ELSE 7
One1(t, r) ==
  LET ty == Types[t]
      b == 1000000 + (t * 300 + r) * 200
      L(k) == Len1(b + k, 1)
  IN [q \in 1..2 |-> [Base(b + q, ty, IF q = 1 THEN "lap2math" ELSE "math2lap") EXCEPT !.nn = L(q)]]
     \o [q \in 1..3 |-> [Base(b + 10 + q, ty, "compose") EXCEPT !.nn = L(10 + q), !.r = Rng(0, L(10 + q), b, q), !.form = q - 1]]
     \o [q \in 1..2 |-> [Base(b + 20 + q, ty, "shiftperm") EXCEPT !.nn = L(20 + q)]]
     \o [q \in 1..6 |-> [Base(b + 30 + q, ty, "shift") EXCEPT !.nn = Small(b + 30 + q, 2), !.m = Small(b + 30 + q, 3), !.form = q % 3]]
     \o [q \in 1..12 |-> [Base(b + 40 + q, ty, "applyp") EXCEPT !.nn = L(40 + q), !.m = L(60 + q), !.left = (q % 2 = 0), !.ta = ((q \div 2) % 2 = 0), !.form = (q % 3), !.ib = Pick(<<0, 0, 1, 3>>, b + q, 3), !.ie = Pick(<<0, 0, 1, 3>>, b + q, 4)]]
     \o [q \in 1..8 |-> [Base(b + 80 + q, ty, "monapplyp") EXCEPT !.nn = L(80 + q), !.m = L(90 + q), !.left = (q % 2 = 0), !.ta = ((q \div 2) % 2 = 0), !.r = Rng(0, L(80 + q), b, q)]]
     \o [q \in 1..8 |-> [Base(b + 110 + q, ty, IF q % 2 = 0 THEN "apps" ELSE "appt") EXCEPT !.m = Small(b + 110 + q, 4), !.r1 = Small(b + q, 5), !.r2 = Small(b + q, 6), !.r3 = Small(b + q, 7), !.r4 = Small(b + q, 8), !.ex = Small(b + q, 9),
           !.form = (IF ty = "MI" THEN (q \div 2) % 2 * 2 ELSE (q \div 2) % 4)]]
Plan == Exh \o Flatten([t \in 1..Len(Types) |-> Flatten([r \in 1..Rounds |-> One1(t, r)])])
ASSUME ndJsonSerialize(Out, Plan)
ASSUME PrintT(<<"PLAN", Len(Plan)>>)
VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
=============================================================================
