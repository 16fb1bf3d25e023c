-------------------------------- MODULE Simd -------------------------------
(***************************************************************************)
(* Vector registers: n lanes of w bytes, little endian (a lane is the      *)
(* two's complement / unsigned number of its bytes).  Every wrapper is a   *)
(* function from registers to registers given lane by lane.  Floating      *)
(* point arithmetic is decided on exactly representable values: operands   *)
(* are multiples of 1/8 (e.a.sx), results multiples of 1/64 (e.ret).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
SimdOps == {"simd", "simdfp"}
Byt == 0..255
Lane(X, w, i) == SubSeq(X, (i - 1) * w + 1, i * w)
Flat(ls) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ls)
Lanes(X, w, n) == [i \in 1..n |-> Lane(X, w, i)]
(* carry propagation on a sequence of column sums, result modulo 256^Len *)
Carry(s) == FoldLeft(LAMBDA a, x : <<Append(a[1], (x + a[2]) % 256), (x + a[2]) \div 256>>, <<<<>>, 0>>, s)[1]
Zeros(k) == [i \in 1..k |-> 0]
One(k) == [i \in 1..k |-> IF i = 1 THEN 1 ELSE 0]
Not(a) == [i \in DOMAIN a |-> 255 - a[i]]
Add(a, b) == Carry([i \in DOMAIN a |-> a[i] + b[i]])
Neg(a) == Add(Not(a), One(Len(a)))
Sub(a, b) == Add(a, Neg(b))
RECURSIVE SumTo(_, _, _, _)
SumTo(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k + 1 - i] + SumTo(a, b, k, i + 1)
(* product modulo 256^Len *)
Mul(a, b) == Carry([k \in DOMAIN a |-> SumTo(a, b, k, 1)])
Negative(a) == a[Len(a)] >= 128
Ext(a, k, sg) == a \o [i \in 1..(k - Len(a)) |-> IF sg /\ Negative(a) THEN 255 ELSE 0]
MulHi(a, b, sg) == LET k == Len(a) IN SubSeq(Mul(Ext(a, 2 * k, sg), Ext(b, 2 * k, sg)), k + 1, 2 * k)
MulX(a, b, sg) == LET k == Len(a) IN Mul(Ext(SubSeq(a, 1, k \div 2), k, sg), Ext(SubSeq(b, 1, k \div 2), k, sg))
RECURSIVE LtU(_, _, _)
LtU(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtU(a, b, i - 1)
Bias(a) == [a EXCEPT ![Len(a)] = (@ + 128) % 256]
Lt(a, b, sg) == IF sg THEN LtU(Bias(a), Bias(b), Len(a)) ELSE LtU(a, b, Len(a))
Mask(c, w) == [i \in 1..w |-> IF c THEN 255 ELSE 0]
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Bit(x, i) == (x \div P2(i)) % 2
Bits(a) == [i \in 1..(8 * Len(a)) |-> Bit(a[((i - 1) \div 8) + 1], (i - 1) % 8)]
RECURSIVE Pack8(_, _)
Pack8(b, i) == IF i = 8 THEN 0 ELSE b[i + 1] * P2(i) + Pack8(b, i + 1)
FromBits(b) == [i \in 1..(Len(b) \div 8) |-> Pack8(SubSeq(b, 8 * i - 7, 8 * i), 0)]
Sll(a, s) == LET b == Bits(a) IN FromBits([i \in DOMAIN b |-> IF i > s THEN b[i - s] ELSE 0])
Shr(a, s, fill) == LET b == Bits(a) IN FromBits([i \in DOMAIN b |-> IF i + s <= Len(b) THEN b[i + s] ELSE fill])
Sra(a, s, sg) == Shr(a, s, IF sg /\ Negative(a) THEN 1 ELSE 0)
Bw(a, b, F(_, _)) == LET x == Bits(a)
                         y == Bits(b)
                     IN FromBits([i \in DOMAIN x |-> F(x[i], y[i])])
(* unpack: interleave the low / high halves; within each block of g lanes *)
UnpackG(A, B, n, g, hi) == [i \in 1..n |->
   LET blk == (i - 1) \div g
       j == (i - 1) % g
       src == blk * g + (IF hi THEN g \div 2 ELSE 0) + j \div 2 + 1
   IN IF j % 2 = 0 THEN A[src] ELSE B[src]]
PackP(A, B, n, par) == [i \in 1..n |-> IF i <= n \div 2 THEN A[2 * i - 1 + par] ELSE B[2 * (i - n \div 2) - 1 + par]]
(* bytes shifted inside each 16-byte block *)
Blk(X, s) == [i \in 1..Len(X) |-> LET j == (i - 1) % 16 IN IF j - s >= 0 /\ j - s < 16 THEN X[i - s] ELSE 0]
Half(X, h) == SubSeq(X, h * 16 + 1, h * 16 + 16)
Perm128(X, Y, imm) == LET sel(c) == IF Bit(c, 3) = 1 THEN Zeros(16) ELSE IF c % 4 = 0 THEN Half(X, 0) ELSE IF c % 4 = 1 THEN Half(X, 1) ELSE IF c % 4 = 2 THEN Half(Y, 0) ELSE Half(Y, 1)
                      IN sel(imm % 16) \o sel(imm \div 16)
RECURSIVE SumLanes(_, _)
SumLanes(A, i) == IF i = 1 THEN A[1] ELSE Add(A[i], SumLanes(A, i - 1))
SimdRes(a) ==
  LET w == a.w
      n == a.n
      sg == a.sg
      X(k) == Lanes(a.x[k], w, n)
      A == X(1)
      B == X(2)
      C == X(3)
      map1(F(_)) == <<Flat([i \in 1..n |-> F(A[i])])>>
      map2(F(_, _)) == <<Flat([i \in 1..n |-> F(A[i], B[i])])>>
      map3(F(_, _, _)) == <<Flat([i \in 1..n |-> F(A[i], B[i], C[i])])>>
      f == a.f
  IN CASE f = "zero" -> <<Zeros(n * w)>>
       [] f \in {"id", "id2"} -> <<a.x[1]>>
       [] f = "set1" -> <<Flat([i \in 1..n |-> A[1]])>>
       [] f = "gather" -> <<Flat([i \in 1..n |-> A[a.idx[i] + 1]])>>
       [] f = "shuffle" -> <<Flat([i \in 1..n |-> A[a.idx[i] + 1]])>>
       [] f = "get" -> <<A[a.idx[1] + 1]>>
       [] f = "overrun" -> <<>>                     \* a store that touched bytes outside the register
       [] f = "vand" -> map2(LAMBDA p, q : Bw(p, q, LAMBDA u, v : u * v))
       [] f = "vor" -> map2(LAMBDA p, q : Bw(p, q, LAMBDA u, v : u + v - u * v))
       [] f = "vxor" -> map2(LAMBDA p, q : Bw(p, q, LAMBDA u, v : (u + v) % 2))
       [] f = "vandnot" -> map2(LAMBDA p, q : Bw(p, q, LAMBDA u, v : (1 - u) * v))
       [] f = "add" -> map2(Add)
       [] f = "sub" -> map2(Sub)
       [] f \in {"mul", "mullo"} -> map2(Mul)
       [] f = "mulhi" -> map2(LAMBDA p, q : MulHi(p, q, sg))
       [] f = "mulx" -> map2(LAMBDA p, q : MulX(p, q, sg))
       [] f = "fmadd" -> map3(LAMBDA c, p, q : Add(c, Mul(p, q)))
       [] f = "fnmadd" -> map3(LAMBDA c, p, q : Sub(c, Mul(p, q)))
       [] f = "fmsub" -> map3(LAMBDA c, p, q : Sub(Mul(p, q), c))
       [] f = "fmaddx" -> map3(LAMBDA c, p, q : Add(c, MulX(p, q, sg)))
       [] f = "fnmaddx" -> map3(LAMBDA c, p, q : Sub(c, MulX(p, q, sg)))
       [] f = "fmsubx" -> map3(LAMBDA c, p, q : Sub(MulX(p, q, sg), c))
       [] f = "eq" -> map2(LAMBDA p, q : Mask(p = q, w))
       [] f = "lesser" -> map2(LAMBDA p, q : Mask(Lt(p, q, sg), w))
       [] f = "greater" -> map2(LAMBDA p, q : Mask(Lt(q, p, sg), w))
       [] f = "lesser_eq" -> map2(LAMBDA p, q : Mask(~Lt(q, p, sg), w))
       [] f = "greater_eq" -> map2(LAMBDA p, q : Mask(~Lt(p, q, sg), w))
       [] f = "sll" -> map1(LAMBDA p : Sll(p, a.imm))
       [] f = "srl" -> map1(LAMBDA p : Shr(p, a.imm, 0))
       [] f = "sra" -> map1(LAMBDA p : Sra(p, a.imm, sg))
       [] f = "unpacklo" -> <<Flat(UnpackG(A, B, n, n, FALSE))>>
       [] f = "unpackhi" -> <<Flat(UnpackG(A, B, n, n, TRUE))>>
       [] f = "unpacklohi" -> <<Flat(UnpackG(A, B, n, n, FALSE)), Flat(UnpackG(A, B, n, n, TRUE))>>
       [] f = "unpacklo_intrinsic" -> <<Flat(UnpackG(A, B, n, 16 \div w, FALSE))>>
       [] f = "unpackhi_intrinsic" -> <<Flat(UnpackG(A, B, n, 16 \div w, TRUE))>>
       [] f = "pack_even" -> <<Flat(PackP(A, B, n, 0))>>
       [] f = "pack_odd" -> <<Flat(PackP(A, B, n, 1))>>
       [] f = "pack" -> <<Flat(PackP(A, B, n, 0)), Flat(PackP(A, B, n, 1))>>
       [] f = "transpose" -> [k \in 1..n |-> Flat([i \in 1..n |-> X(i)[k]])]
       [] f = "blend" -> <<Flat([i \in 1..n |-> IF Bit(a.imm, i - 1) = 1 THEN B[i] ELSE A[i]])>>
       [] f = "blendv" -> map3(LAMBDA p, q, m : IF Negative(m) THEN q ELSE p)
       [] f = "hadd_to_scal" -> <<SumLanes(A, n)>>
       [] f = "sll128" -> <<Blk(a.x[1], a.imm)>>
       [] f = "srl128" -> <<Blk(a.x[1], 0 - a.imm)>>
       [] f = "permute128" -> <<Perm128(a.x[1], a.x[2], a.imm)>>
(* floating point: x, y, z multiples of 1/8; r64 multiples of 1/64 *)
FloorD(v, d) == v \div d
RoundEven(v) == LET q == v \div 8
                    r == v % 8
                IN IF r < 4 THEN q ELSE IF r > 4 THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1
SimdFp(a, r) ==
  LET n == a.n
      A == a.x[1]
      B == a.x[2]
      C == a.x[3]
      f == a.f
      all(F(_)) == Len(r) = n /\ \A i \in 1..n : r[i] = F(i)
  IN CASE f = "add" -> all(LAMBDA i : 8 * (A[i] + B[i]))
       [] f = "sub" -> all(LAMBDA i : 8 * (A[i] - B[i]))
       [] f = "mul" -> all(LAMBDA i : A[i] * B[i])
       [] f = "div" -> all(LAMBDA i : 64 * a.q[i])       \* A = q.B chosen by the client
       [] f = "fmadd" -> all(LAMBDA i : 8 * A[i] + B[i] * C[i])
       [] f = "fnmadd" -> all(LAMBDA i : 8 * A[i] - B[i] * C[i])
       [] f = "fmsub" -> all(LAMBDA i : B[i] * C[i] - 8 * A[i])
       [] f = "floor" -> all(LAMBDA i : 64 * (A[i] \div 8))
       [] f = "ceil" -> all(LAMBDA i : 0 - 64 * ((0 - A[i]) \div 8))
       [] f = "round" -> all(LAMBDA i : 64 * RoundEven(A[i]))
       [] f = "eq" -> all(LAMBDA i : IF A[i] = B[i] THEN 1 ELSE 0)
       [] f = "lesser" -> all(LAMBDA i : IF A[i] < B[i] THEN 1 ELSE 0)
       [] f = "lesser_eq" -> all(LAMBDA i : IF A[i] <= B[i] THEN 1 ELSE 0)
       [] f = "greater" -> all(LAMBDA i : IF A[i] > B[i] THEN 1 ELSE 0)
       [] f = "greater_eq" -> all(LAMBDA i : IF A[i] >= B[i] THEN 1 ELSE 0)
       [] f = "hadd" -> (* pairs inside each 128-bit block: those of A then those of B *)
            LET g == a.g
            IN all(LAMBDA i : LET blk == (i - 1) \div g
                                  j == (i - 1) % g
                                  s == blk * g + 2 * (j % (g \div 2)) + 1
                              IN IF j < g \div 2 THEN 8 * (A[s] + A[s + 1]) ELSE 8 * (B[s] + B[s + 1]))
       [] f = "hadd_to_scal" -> r = <<8 * FoldLeft(LAMBDA u, v : u + v, 0, A)>>
(* the documented approximation: the high product or one less *)
FastOk(a, r) == LET A == Lanes(a.x[1], a.w, a.n)
                    B == Lanes(a.x[2], a.w, a.n)
                    R == Lanes(r[1], a.w, a.n)
                IN \A i \in 1..a.n : LET h == MulHi(A[i], B[i], TRUE) IN R[i] = h \/ R[i] = Sub(h, One(a.w))
SimdAllowed(e, pre, post) == post = pre /\ IF e.op = "simdfp" THEN SimdFp(e.a, e.ret)
                                          ELSE IF e.a.f = "mulhi_fast" THEN FastOk(e.a, e.ret)
                                          ELSE e.ret = SimdRes(e.a)
=============================================================================
