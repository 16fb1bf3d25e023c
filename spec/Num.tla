-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Coefficient rings of FFLAS-FFPACK.                                      *)
(*                                                                         *)
(* A ring is a record R = [p, lo, wide]:                                   *)
(*   p     modulus (0: the integers Z),                                    *)
(*   lo    smallest canonical representative: the canonical representative *)
(*         of a class is the unique x with lo <= x < lo + p,               *)
(*   wide  FALSE: elements are TLA+ integers (p < 2^30, TLC integers are   *)
(*         32 bits wide);                                                  *)
(*         TRUE: elements (and p, lo) are "limb tuples"                    *)
(*         <<sign, l0, l1, ...>>, value sign * SUM l_i 2^(15 i), no leading *)
(*         zero limb, sign in {-1,0,1}, zero being <<0>>.                  *)
(*                                                                         *)
(* The definitions below are the semantics.  java/FFOverrides.java gives   *)
(* accelerated implementations of some of them to TLC; every check also    *)
(* runs part of its traces WITHOUT the accelerators and requires the same  *)
(* verdicts.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

NMin(a, b) == IF a < b THEN a ELSE b
NMax(a, b) == IF a < b THEN b ELSE a
NAbs(a) == IF a < 0 THEN -a ELSE a

(* ------------------------- machine-size integers ----------------------- *)
(* a * b mod p without leaving 32-bit arithmetic, 0 <= a, b < p < 2^30     *)
RECURSIVE MulModS(_, _, _)
MulModS(a, b, p) ==
  IF p <= 46340 THEN (a * b) % p
  ELSE IF b = 0 THEN 0
       ELSE LET d == IF p < 268435456 THEN 8 ELSE 2
            IN (((d * MulModS(a, b \div d, p)) % p) + ((a * (b % d)) % p)) % p

(* ------------------------------ limb tuples ---------------------------- *)
LB == 32768
LZero == <<0>>
LMagS(x) == SubSeq(x, 2, Len(x))                 \* magnitude: little endian limbs
RECURSIVE LTrim(_)
LTrim(m) == IF m = <<>> THEN m
            ELSE IF m[Len(m)] = 0 THEN LTrim(SubSeq(m, 1, Len(m) - 1)) ELSE m
LMk(s, m) == LET t == LTrim(m) IN IF t = <<>> THEN LZero ELSE <<s>> \o t
LGet(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
(* comparison of magnitudes: -1, 0, 1 (no leading zeros) *)
LCmpM(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE LET D == {i \in 1..Len(a) : a[i] # b[i]}
       IN IF D = {} THEN 0
          ELSE LET k == CHOOSE i \in D : \A j \in D : j <= i
               IN IF a[k] < b[k] THEN -1 ELSE 1
RECURSIVE LCarry(_, _, _, _)
LCarry(m, i, c, acc) ==     \* normalise a tuple of (possibly negative/large) limbs, total >= 0
  IF i > Len(m) THEN (IF c = 0 THEN acc ELSE LCarry(<<>>, 1, c \div LB, Append(acc, c % LB)))
  ELSE LET v == m[i] + c IN LCarry(m, i + 1, v \div LB, Append(acc, v % LB))
LAddM(a, b) == LCarry([i \in 1..NMax(Len(a), Len(b)) |-> LGet(a, i) + LGet(b, i)], 1, 0, <<>>)
LSubM(a, b) == LCarry([i \in 1..NMax(Len(a), Len(b)) |-> LGet(a, i) - LGet(b, i)], 1, 0, <<>>)  \* a >= b
RECURSIVE LMulAcc(_, _, _)
(* sum over the limbs of b, carrying after each row so nothing exceeds 2^31 *)
LMulAcc(a, b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE LAddM(LCarry([j \in 1..Len(a) |-> a[j] * b[i]], 1, 0, <<>>),
             <<0>> \o LMulAcc(a, b, i + 1))
LMulM(a, b) == LTrim(LMulAcc(a, b, 1))
LNeg(x) == IF x = LZero THEN x ELSE <<-x[1]>> \o LMagS(x)
LAdd(x, y) ==
  IF x = LZero THEN y ELSE IF y = LZero THEN x
  ELSE IF x[1] = y[1] THEN LMk(x[1], LAddM(LMagS(x), LMagS(y)))
  ELSE LET c == LCmpM(LMagS(x), LMagS(y))
       IN IF c = 0 THEN LZero
          ELSE IF c > 0 THEN LMk(x[1], LSubM(LMagS(x), LMagS(y)))
          ELSE LMk(y[1], LSubM(LMagS(y), LMagS(x)))
LMul(x, y) == IF x = LZero \/ y = LZero THEN LZero ELSE LMk(x[1] * y[1], LMulM(LMagS(x), LMagS(y)))
LLt(x, y) == LET d == LAdd(x, LNeg(y)) IN d[1] < 0
(* remainder of a magnitude by a magnitude, bit by bit *)
LDouble(m) == LTrim(LCarry([i \in 1..Len(m) |-> 2 * m[i]], 1, 0, <<>>))
LPow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384>>
LBit(m, i) == (m[(i \div 15) + 1] \div LPow2[(i % 15) + 1]) % 2
RECURSIVE LRemB(_, _, _, _)
LRemB(m, d, i, r) ==
  IF i < 0 THEN r
  ELSE LET r2 == LDouble(r)
           r3 == IF LBit(m, i) = 1 THEN LTrim(LAddM(r2, <<1>>)) ELSE r2
       IN LRemB(m, d, i - 1, IF LCmpM(r3, d) >= 0 THEN LTrim(LSubM(r3, d)) ELSE r3)
LRemM(m, d) == LRemB(m, d, 15 * Len(m) - 1, <<>>)
LMod(x, p) ==                                   \* p > 0, result in 0..p-1
  IF x = LZero THEN x
  ELSE LET r == LMk(1, LRemM(LMagS(x), LMagS(p)))
       IN IF x[1] < 0 /\ r # LZero THEN LAdd(p, LNeg(r)) ELSE r
RECURSIVE LOfM(_)
LOfM(n) == IF n = 0 THEN <<>> ELSE <<n % LB>> \o LOfM(n \div LB)
LOf(n) == IF n = 0 THEN LZero ELSE IF n > 0 THEN LMk(1, LOfM(n)) ELSE LMk(-1, LOfM(-n))

(* ------------------------------ ring operations ------------------------ *)
IsZ(R) == IF R.wide THEN R.p = LZero ELSE R.p = 0
(* canonical representative of an arbitrary integer *)
Can(R, x) ==
  IF IsZ(R) THEN x
  ELSE IF R.wide
       THEN LET r == LMod(LAdd(x, LNeg(R.lo)), R.p) IN LAdd(r, R.lo)
       ELSE R.lo + (((x % R.p) - (R.lo % R.p)) % R.p)
(* residue in 0..p-1 *)
Res(R, x) == IF IsZ(R) THEN x ELSE IF R.wide THEN LMod(x, R.p) ELSE x % R.p
OfInt(R, n) == IF R.wide THEN Can(R, LOf(n)) ELSE Can(R, n)
Zero(R) == OfInt(R, 0)
One(R) == OfInt(R, 1)
Add(R, x, y) ==
  IF R.wide THEN Can(R, LAdd(x, y))
  ELSE IF IsZ(R) THEN x + y ELSE Can(R, Res(R, x) + Res(R, y))
Neg(R, x) == IF R.wide THEN Can(R, LNeg(x)) ELSE IF IsZ(R) THEN -x ELSE Can(R, -Res(R, x))
Sub(R, x, y) == Add(R, x, Neg(R, y))
Mul(R, x, y) ==
  IF R.wide THEN Can(R, LMul(x, y))
  ELSE IF IsZ(R) THEN x * y ELSE Can(R, MulModS(Res(R, x), Res(R, y), R.p))
IsCanon(R, x) == Can(R, x) = x

(* inverse in a field: x^(p-2) by square and multiply (p prime) *)
RECURSIVE PowS(_, _, _)
PowS(R, x, e) ==
  IF e = 0 THEN One(R)
  ELSE LET h == PowS(R, x, e \div 2)
           s == Mul(R, h, h)
       IN IF e % 2 = 1 THEN Mul(R, s, x) ELSE s
RECURSIVE PowL(_, _, _, _)
PowL(R, x, m, i) ==               \* x^(bits of m from i down)
  IF i >= 15 * Len(m) THEN One(R)
  ELSE LET h == PowL(R, x, m, i + 1)
           s == Mul(R, h, h)
       IN IF LBit(m, i) = 1 THEN Mul(R, s, x) ELSE s
Inv(R, x) ==
  IF R.wide THEN PowL(R, x, LMagS(LAdd(R.p, LOf(-2))), 0)
  ELSE IF R.p = 2 THEN x ELSE PowS(R, x, R.p - 2)
=============================================================================
