----------------------------- MODULE Plan_C15 ------------------------------
(* Every strategy and parameter, every thread or grain count up to a       *)
(* bound, every size up to a bound (exhaustive), and larger sizes around   *)
(* the fixed block size.                                                   *)
EXTENDS PlanLib
Sts == << <<"row", "threads">>, <<"row", "grain">>, <<"row", "fixed">>, <<"col", "threads">>, <<"col", "grain">>, <<"col", "fixed">>,
          <<"block", "threads">>, <<"block", "grain">>, <<"block", "fixed">>, <<"single", "threads">> >>
B(n, op, s, t) == [op |-> op, ty |-> "MD", n |-> n, seed |-> Seed, pc |-> "101", st |-> s[1], pa |-> s[2], t |-> t, m0 |-> 0, m1 |-> 0, n0 |-> 0, n1 |-> 0, kind |-> 0]
T1 == IF Thorough THEN 40 ELSE 16
T2 == IF Thorough THEN 30 ELSE 13
N2 == IF Thorough THEN 14 ELSE 9
Bigs == <<0, 50, 250, 254, 257, 300, 400, 505, 511, 520, 700, 766, 770, 1000, 1023, 1300>>
TB == <<65, 66, 72, 80, 100, 127, 128, 144, 200>>
Ts(s, T) == IF s[1] = "single" THEN 1 ELSE IF s[2] = "fixed" THEN 2 ELSE T
Small1 == Flatten([s \in 1..Len(Sts) |-> [t \in 1..Ts(Sts[s], T1) |-> [B(s * 1000 + t, "split1", Sts[s], t) EXCEPT !.m0 = 0, !.m1 = IF Thorough THEN 60 ELSE 34]]])
Small2 == Flatten([s \in 1..Len(Sts) |-> [t \in 1..Ts(Sts[s], T2) |-> [B(20000 + s * 1000 + t, "split2", Sts[s], t) EXCEPT !.m0 = 0, !.m1 = N2, !.n0 = 0, !.n1 = N2]]])
Big1 == Flatten([s \in 1..Len(Sts) |-> [k \in 1..Len(Bigs) |-> LET c == s * 100 + k IN [B(40000 + c, "split1", Sts[s], IF Sts[s][1] = "single" THEN 1 ELSE Rng(1, 90, c, 1)) EXCEPT !.m0 = Bigs[k], !.m1 = Bigs[k] + 3]]])
Big2 == Flatten([s \in 1..Len(Sts) |-> [k \in 1..(IF Thorough THEN 60 ELSE 14) |-> LET c == s * 100 + k
                                                                                      a == Pick(Bigs, c, 2)
                                                                                      b == Pick(Bigs, c, 3)
                                                                                      t == IF Sts[s][2] = "grain" THEN Rng(30, 400, c, 4) ELSE IF Sts[s][1] = "single" THEN 1 ELSE IF k % 3 = 0 THEN Pick(TB, c, 5) ELSE Rng(1, 64, c, 6) IN
            [B(50000 + c, "split2", Sts[s], t) EXCEPT !.m0 = a, !.m1 = a + 1, !.n0 = b, !.n1 = b + 1]]])
Loops == Flatten([s \in 1..(Len(Sts) - 1) |-> Flatten([k \in 1..(IF Thorough THEN 12 ELSE 4) |-> [f \in 1..4 |-> LET c == s * 100 + k * 10 + f IN
            [B(60000 + c, "loop", Sts[s], Rng(1, 9, c, 1)) EXCEPT !.m0 = Rng(0, 30, c, 2), !.n0 = Rng(0, 30, c, 3), !.kind = f - 1]]])])
Plan == Small1 \o Small2 \o Big1 \o Big2 \o Loops
ASSUME ndJsonSerialize(Out, Plan)
ASSUME PrintT(<<"PLAN", Len(Plan)>>)
VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
=============================================================================
