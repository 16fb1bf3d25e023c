----------------------------- MODULE Plan_C03 ------------------------------
(* Client behaviours for element-wise and data movement routines: every    *)
(* routine x type x {vector, matrix} x aliasing pattern; lengths around    *)
(* the SIMD width and the copy threshold, strides, misalignment, scalar    *)
(* classes and data classes sampled.                                       *)
EXTENDS PlanLib
Types == <<"MD", "BD", "MF", "BF", "M32", "M64", "B32", "B64", "ZD", "ZF", "Z64", "M16", "MU32", "MU64", "MI", "ZI", "MR7", "MR78">>
IsZ(ty) == ty \in {"ZD", "ZF", "Z64", "ZI"}
IsBig(ty) == ty \in {"MI", "ZI", "MR7", "MR78"}
IsU(ty) == ty \in {"MU32", "MU64", "MR7", "MR78"}
Als == <<"0", "1", "-1", "2", "r", "max", "r">>
Pcs == <<"2", "3", "7", "101", "251", "sqrt", "half", "max", "max", "max2", "b11", "b13", "b16", "b20">>
Data == <<"rand", "rand", "max", "alt", "mix", "small", "min">>
ZData == <<"rand", "rand", "mix", "small">>
Ops == <<"freduce", "freduce", "freduce", "freduce_tri", "finit", "fconvert", "fnegin", "fneg", "fscalin", "fscal", "fscal", "fzero", "fzero_tri", "fiszero",
         "fequal", "fassign", "fidentity", "fidentity1", "faxpy", "faxpy", "faddin", "fsubin", "fadd", "fsub", "faddx", "faddin_tri", "fdot", "fdot", "fswap",
         "fmove", "ftranspose", "ftranspose", "pfadd", "pfsub", "pfaddin", "pfsubin">>
MatOnly == {"fidentity", "fidentity1", "fmove", "pfadd", "pfsub", "pfaddin", "pfsubin"}
VecOnly == {"fswap", "fdot"}
Lens == <<0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 15, 16, 17, 23, 31, 32, 33, 37, 40, 47, 63, 64, 65>>
SLens == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16, 17>>
Case(n, ty, op0) ==
  LET op == IF op0 \in {"freduce", "freduce_tri"} /\ (IsZ(ty) \/ IsU(ty)) THEN "fassign" ELSE IF op0 \in {"finit", "fconvert"} /\ IsBig(ty) THEN "fneg"
            ELSE IF op0 \in {"finit", "fconvert"} /\ IsZ(ty) THEN "fscal"
            ELSE IF ty \in {"MR7", "MR78"} /\ op0 \in {"fsubin", "faxpy", "pfsubin"} THEN Pick(<<"fsub", "faddx">>, n, 40) ELSE op0
      tri == op \in {"freduce_tri", "fzero_tri", "faddin_tri"}
      vec == IF op \in MatOnly \/ tri \/ op = "ftranspose" THEN FALSE ELSE IF op \in VecOnly THEN TRUE ELSE Pick(Bools, n, 1)
      full == op \in {"freduce", "freduce_tri", "finit", "fconvert"}
      tr == op = "ftranspose"
  IN [op |-> IF op = "freduce_tri" THEN "freduce" ELSE op, ty |-> ty, n |-> n, seed |-> Seed, pc |-> Pick(Pcs, n, 6),
      zb |-> IF ty = "ZI" THEN Pick(<<2, 30, 70, 130>>, n, 20) ELSE Pick(<<1, 4, 8>>, n, 20),
      fw |-> IF full THEN 1 ELSE 0,
      vec |-> vec, m |-> IF vec THEN Pick(Lens, n, 2) ELSE IF tr THEN Pick(<<0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40>>, n, 2) ELSE Pick(SLens, n, 2),
      nn |-> IF tr THEN Pick(<<0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40>>, n, 3) ELSE Pick(SLens, n, 3),
      sq |-> Pick(Bools, n, 4), bs |-> Pick(<<0, 8, 16, 3>>, n, 5),
      la |-> Pick(<<0, 0, 0, 1, 3>>, n, 7), lb |-> Pick(<<0, 0, 0, 2, 3>>, n, 8), lc |-> Pick(<<0, 0, 0, 1, 4>>, n, 9),
      mis |-> Pick(<<0, 0, 1, 2, 3, 4, 5, 6, 7>>, n, 10), mis2 |-> Pick(<<0, 0, 1, 2, 3>>, n, 11), mis3 |-> Pick(<<0, 0, 1, 2, 5>>, n, 12),
      al |-> Pick(Als, n, 13),
      dA |-> IF full /\ op # "fconvert" THEN Pick(<<"full", "near", "edge", "full", "near">>, n, 14)
             ELSE IF op = "fiszero" THEN Pick(<<"zero", "sparse", "zero", "rand">>, n, 14) ELSE IF IsZ(ty) THEN Pick(ZData, n, 14) ELSE Pick(Data, n, 14),
      dB |-> IF IsZ(ty) THEN Pick(ZData, n, 15) ELSE Pick(Data, n, 15),
      alias |-> IF ty \in {"MR7", "MR78"} THEN "" ELSE Pick(<<"", "", "AC", "BC">>, n, 16)   \* Givaro's Modular<ruint>::sub(r,r,b) is not alias safe
     , ip |-> Hash(n, 17) % 2,
      tri |-> IF op = "fzero_tri" THEN Pick(<<"U", "L", "LT", "RT">>, n, 18) ELSE IF tri THEN Pick(<<"U", "L">>, n, 18) ELSE "",
      unit |-> Pick(Bools, n, 19), from |-> Pick(<<"d", "i64", "i32", "f">>, n, 21), eq |-> Hash(n, 22) % 3, form |-> Hash(n, 23) % 2,
      th |-> Rng(1, 5, n, 24)]
Rounds(ty) == (IF Thorough THEN 240 ELSE 24) \div (IF IsBig(ty) THEN 2 ELSE 1)
Plan == Flatten([t \in 1..Len(Types) |-> Flatten([r \in 1..Rounds(Types[t]) |->
          [o \in 1..Len(Ops) |-> Case(((t * 300) + r) * 40 + o, Types[t], Ops[o])]])])
ASSUME ndJsonSerialize(Out, Plan)
ASSUME PrintT(<<"PLAN", Len(Plan)>>)
VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
=============================================================================
