------------------------------- MODULE Split -------------------------------
(***************************************************************************)
(* Work splitting.  An iteration space 0..n-1 (or m x n) is visited block  *)
(* by block; the blocks must partition it.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
(* bs: sequence of <<begin, end>>; contiguous, non empty, exactly 0..n-1   *)
Partition1(n, bs) ==
  IF n = 0 THEN bs = <<>>
  ELSE /\ Len(bs) >= 1
       /\ bs[1][1] = 0
       /\ bs[Len(bs)][2] = n
       /\ \A i \in DOMAIN bs : bs[i][1] < bs[i][2]
       /\ \A i \in 1..(Len(bs) - 1) : bs[i + 1][1] = bs[i][2]
(* rectangles <<ib, ie, jb, je>>: in range, non empty, pairwise disjoint, area m n *)
RECURSIVE AreaGo(_, _, _)
AreaGo(bs, i, a) == IF i > Len(bs) THEN a ELSE AreaGo(bs, i + 1, a + (bs[i][2] - bs[i][1]) * (bs[i][4] - bs[i][3]))
Disjoint(x, y) == x[2] <= y[1] \/ y[2] <= x[1] \/ x[4] <= y[3] \/ y[4] <= x[3]
Partition2(m, n, bs) ==
  /\ \A i \in DOMAIN bs : 0 <= bs[i][1] /\ bs[i][1] < bs[i][2] /\ bs[i][2] <= m /\ 0 <= bs[i][3] /\ bs[i][3] < bs[i][4] /\ bs[i][4] <= n
  /\ \A i, j \in DOMAIN bs : i < j => Disjoint(bs[i], bs[j])
  /\ AreaGo(bs, 1, 0) = m * n
SplitAllowed(e, pre, post) ==
  /\ post = pre
  /\ CASE e.op = "split1" -> \A k \in DOMAIN e.ret : LET x == e.ret[k] IN x.nb = Len(x.bs) /\ Partition1(x.n, x.bs)
       [] e.op = "split2" -> \A k \in DOMAIN e.ret : LET x == e.ret[k] IN x.nb = Len(x.bs) /\ Partition2(x.m, x.n, x.bs)
       [] OTHER -> (* "loop": how often each index of a parallel loop was visited *)
                   \A k \in DOMAIN e.ret : e.ret[k] = 1
SplitOps == {"split1", "split2", "loop"}
=============================================================================
