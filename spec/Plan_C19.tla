----------------------------- MODULE Plan_C19 ------------------------------
(* Client behaviours for matrix files: every format, ring, shape (empty    *)
(* included), storage order and leading dimension, read back explicitly    *)
(* and by detection, and files written by other programs.                  *)
EXTENDS PlanLib
Types == <<"MD", "BD", "MF", "BF", "M32", "M64", "B32", "B64", "MI", "ZI", "ZD", "Z64", "MU32", "MU64", "M16", "MR7">>
Data == <<"rand", "rand", "max", "min", "sparse", "zero", "vb", "small", "mix">>
Base(n, ty, op) ==
  [op |-> op, ty |-> ty, n |-> n, seed |-> Seed, pc |-> Pick(<<"2", "3", "101", "max", "max", "b10", "b20", "b23", "half">>, n, 6), zb |-> Pick(<<3, 10, 20, 23, 29>>, n, 5), fmt |-> Pick(<<"dense", "dense", "sms", "sms", "bin", "bin", "math", "maple", "sage", "field", "fmaple">>, n, 2),
   m |-> Pick(<<0, 1, 1, 2, 3, 4, 7>>, n, 3), nn |-> Pick(<<0, 1, 1, 2, 3, 5, 8>>, n, 4), la |-> Pick(<<0, 0, 1, 4>>, n, 7), cm |-> (Hash(n, 8) % 3 = 0), as |-> Pick(<<"auto", "same">>, n, 9), how |-> Pick(<<0, 1>>, n, 10), how2 |-> Pick(<<0, 1>>, n, 11), red |-> FALSE, k |-> Rng(0, 9, n, 12), d |-> Pick(Data, n, 13)]
Z(r) == IF r.ty = "ZI" THEN [r EXCEPT !.zb = Pick(<<3, 30, 64, 65, 130>>, r.n, 14)] ELSE IF r.ty = "ZD" THEN [r EXCEPT !.zb = Pick(<<3, 20, 21, 28>>, r.n, 14)] ELSE IF r.ty = "MI" \/ r.ty = "MR7" THEN [r EXCEPT !.pc = Pick(<<"2", "101", "b30", "b63", "b64", "b65", "b100">>, r.n, 14)] ELSE r
Foreign(n, ty) == [Base(n, ty, "ioread") EXCEPT !.fmt = Pick(<<"dense", "sms", "sms">>, n, 15), !.red = (ty \in {"MU32", "MU64", "MR7"} \/ Hash(n, 16) % 3 = 0)]
Rounds == IF Thorough THEN 60 ELSE 4
One1(t, r) == LET ty == Types[t]
                  b == (t * 300 + r) * 200
  IN [q \in 1..40 |-> Z(Base(b + q, ty, "iowrite"))] \o [q \in 1..8 |-> Z(Foreign(b + 60 + q, ty))] \o (IF ty = "MD" THEN [q \in 1..4 |-> [Base(b + 100 + q, ty, "perm") EXCEPT !.nn = Rng(0, 12, b, q)]] ELSE << >>)
     \o (IF ty \in {"MD", "BD", "M32", "M64", "ZD", "Z64"} THEN [q \in 1..4 |-> [Base(b + 120 + q, ty, "ioread") EXCEPT !.fmt = "sms", !.how = 2]] \o [q \in 1..3 |-> [Base(b + 130 + q, ty, "iowrite") EXCEPT !.fmt = "sms", !.how = 2]] ELSE << >>)
Plan == Flatten([t \in 1..Len(Types) |-> Flatten([r \in 1..Rounds |-> One1(t, r)])])
ASSUME ndJsonSerialize(Out, Plan)
ASSUME PrintT(<<"PLAN", Len(Plan)>>)
VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
=============================================================================
