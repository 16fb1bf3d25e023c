----------------------------- MODULE Plan_C18 ------------------------------
(* Client behaviours for the C interface and the compiled libraries behind *)
(* it: the behaviours of the C++ properties, restricted to the routines    *)
(* and calling forms the C headers declare (representation of the field    *)
(* selected by the `positive' flag), with the same specification.          *)
EXTENDS PlanLib
VARIABLE dummy
P1 == INSTANCE Plan_C01
P3 == INSTANCE Plan_C03
P4 == INSTANCE Plan_C04
P5 == INSTANCE Plan_C05
P7 == INSTANCE Plan_C07
P8 == INSTANCE Plan_C08
P9 == INSTANCE Plan_C09
P10 == INSTANCE Plan_C10
P11 == INSTANCE Plan_C11
P13 == INSTANCE Plan_C13
Dbl(c) == c.ty \in {"MD", "BD"}
(* keep one case in k *)
Keep(c, k) == Thorough \/ Hash(c.n, 321) % k = 0
As(c, src) == [c EXCEPT !.ty = @ \o "_" \o src]
Sel(s, T(_), src) == LET q == SelectSeq(s, T) IN [i \in 1..Len(q) |-> As(q[i], src)]
T1(c) == Dbl(c) /\ (c.op = "fgemm" => c.form = "def")
T3(c) == Dbl(c) /\ Keep(c, 2) /\ c.op \notin {"finit", "fconvert", "fzero_tri", "fidentity1", "faddx", "faddin_tri", "ftranspose", "pfadd", "pfsub", "pfaddin", "pfsubin"}
         /\ c.tri = "" /\ (c.op = "fdot" => c.form = 0)
T4(c) == Dbl(c) /\ c.op # "ftrmv" /\ (c.op = "fgemv" => c.form = 0) /\ Keep(c, 2)
T5(c) == Dbl(c) /\ c.op \in {"ftrsm", "ftrmm", "ftrtri", "trinv_left", "ftrtrm"} /\ (c.op = "ftrsm" => c.form = 0) /\ (c.op = "ftrtri" => c.th = 0)
T7(c) == Dbl(c) /\ c.op # "lqupinv" /\ (c.op = "pluq" => c.bc = 0) /\ (c.op = "ludivine" => c.bc > 0)
T8(c) == Dbl(c)
T9(c) == c.ty \in {"MD", "BD", "MF", "BF", "M32", "B32"} /\ c.tag < 2 /\ Keep(c, 2)
T10(c) == Dbl(c) /\ (c.op \in {"rank", "det"} => c.form = 0)
T11(c) == Dbl(c)
T13(c) == c.ty \in {"MD", "BD"} /\ c.op # "monapplyp" /\ (c.op = "applyp" => c.form = 0) /\ (c.op = "shiftperm" => c.nn > 0) /\ (c.op = "shift" => c.form < 2) /\ (c.op \in {"apps", "appt"} => c.form < 2)
Plan == Sel(P1!Plan, T1, "h_gemm") \o Sel(P3!Plan, T3, "h_l1") \o Sel(P4!Plan, T4, "h_l2") \o Sel(P5!Plan, T5, "h_tri")
        \o Sel(P7!Plan, T7, "h_lu") \o Sel(P8!Plan, T8, "h_lu") \o Sel(P9!Plan, T9, "h_ech") \o Sel(P10!Plan, T10, "h_sol") \o Sel(P11!Plan, T11, "h_sol") \o Sel(P13!Plan, T13, "h_perm")
ASSUME ndJsonSerialize(Out, Plan)
ASSUME PrintT(<<"PLAN", Len(Plan)>>)
Init == dummy = 0
Next == UNCHANGED dummy
=============================================================================
