------------------------------ MODULE PlanLib ------------------------------
(* Helpers shared by the plan modules (enumeration of client behaviours).  *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json, SequencesExt, FiniteSets
Seed == atoi(IOEnv.VERIF_SEED)
Tier == IOEnv.VERIF_TIER
Thorough == Tier = "thorough"
Out == IOEnv.PLAN_OUT
MB == 50000017
(* hash of (seed, case number n, dimension d); everything stays below 2^31 *)
H0(x) == ((x % MB) * 37 + 11) % MB
H1(x) == H0(H0(x) + (x \div 3))
Hash(n, d) == LET a == H1((n % 1000003) + 1009 * (d % 1009))
                  b == H1(a + 7919 * (Seed % 1009) + n)
                  c == H1(b + 31 * d + (a \div 5))
              IN (c \div 7) % 1000003
Pick(s, n, d) == s[(Hash(n, d) % Len(s)) + 1]
Rng(lo, hi, n, d) == lo + (Hash(n, d) % (hi - lo + 1))
Rep(x, k) == [i \in 1..k |-> x]
Flatten(ss) == FlattenSeq(ss)
Bools == <<TRUE, FALSE>>
(* builds with the library's default thresholds, on larger operands *)
IsL(ty) == ty \in {"MD_L", "M64_L", "BF_L"}
LRounds == IF Thorough THEN 6 ELSE 1
DimL(n, d) == LET r == Hash(n, d + 60) % 12 IN IF r < 6 THEN Rng(33, 72, n, d + 61) ELSE IF r < 11 THEN Rng(73, 140, n, d + 62) ELSE Rng(257, 280, n, d + 63)
=============================================================================
