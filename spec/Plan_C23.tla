----------------------------- MODULE Plan_C23 ------------------------------
(* Client behaviours for the vector wrappers: every wrapper of every width *)
(* and element type on registers of each data class.                      *)
EXTENDS PlanLib
Elts == <<"d", "f", "i16", "u16", "i32", "u32", "i64", "u64">>
Datas == <<"rand", "edge", "mix", "small", "mid", "same">>
Rounds == IF Thorough THEN 60 ELSE 3
Plan == Flatten([w \in 1..2 |-> Flatten([t \in 1..Len(Elts) |-> Flatten([d \in 1..Len(Datas) |-> [r \in 1..Rounds |->
   [op |-> "simd", ty |-> "MD", n |-> ((w * 10 + t) * 10 + d) * 1000 + r, seed |-> Seed, wd |-> w, elt |-> Elts[t], d |-> Datas[d]]]])])])
ASSUME ndJsonSerialize(Out, Plan)
ASSUME PrintT(<<"PLAN", Len(Plan)>>)
VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
=============================================================================
