----------------------------- MODULE Split_MC ------------------------------
(* The splitting iterator as a state machine, for every size and every    *)
(* number of blocks: the visited prefix is always contiguous and the       *)
(* iteration ends exactly at n.                                            *)
EXTENDS Split, TLC
CONSTANTS NMAX, TMAX
VARIABLES n, nb, big, small, change, cur, ib, ie, vis
vars == <<n, nb, big, small, change, cur, ib, ie, vis>>
MaxI(a, b) == IF a > b THEN a ELSE b
(* t wanted blocks: t as requested (threads), or n \div grain *)
Build(k, t) ==
  LET q == k \div MaxI(t, 1)
      n1 == IF q < 1 THEN k ELSE MaxI(t, 1)
      f == IF q < 1 THEN 1 ELSE q
      c == k - n1 * f
  IN [nb |-> n1, small |-> f, change |-> c, big |-> IF c > 0 THEN f + 1 ELSE f]
Init == \E k \in 0..NMAX, t \in 1..TMAX, g \in {TRUE, FALSE} :
  LET b == Build(k, IF g THEN MaxI(k \div t, 1) ELSE t)
  IN /\ n = k /\ nb = b.nb /\ big = b.big /\ small = b.small /\ change = b.change
     /\ cur = 0 /\ ib = 0 /\ ie = b.big /\ vis = <<>>
Next == /\ cur # nb
        /\ vis' = Append(vis, <<ib, ie>>)
        /\ ib' = ie
        /\ cur' = cur + 1
        /\ ie' = ie + (IF cur + 1 < change THEN big ELSE small)
        /\ UNCHANGED <<n, nb, big, small, change>>
Spec == Init /\ [][Next]_vars
Prefix == \A i \in DOMAIN vis : vis[i][1] < vis[i][2] /\ vis[i][2] <= n /\ vis[i][1] = (IF i = 1 THEN 0 ELSE vis[i - 1][2])
Done == cur = nb => Partition1(n, vis) /\ Len(vis) = nb
=============================================================================
