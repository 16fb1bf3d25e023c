------------------------------- MODULE Io_MC -------------------------------
(* The formats lose nothing: Parse inverts File, for every small matrix    *)
(* over several rings, and no two matrices share a file.                   *)
EXTENDS Io, TLC
Rings == {[p |-> 2, lo |-> 0, wide |-> FALSE], [p |-> 3, lo |-> -1, wide |-> FALSE], [p |-> 0, lo |-> 0, wide |-> FALSE]}
Vals(R) == IF IsZ(R) THEN -1..1 ELSE R.lo..(R.lo + R.p - 1)
CONSTANT MaxCells
VARIABLES R, M, fmt
Shapes == {s \in (0..3) \X (0..3) : s[1] * s[2] <= MaxCells}
Init == /\ R \in Rings
        /\ \E s \in Shapes : \E e \in [1..(s[1] * s[2]) -> Vals(R)] : M = [m |-> s[1], n |-> s[2], e |-> e]
        /\ fmt \in {"dense", "sms", "bin"}
Next == UNCHANGED <<R, M, fmt>>
Same(A, B) == A.m = B.m /\ A.n = B.n /\ \A x \in 1..(A.m * A.n) : A.e[x] = B.e[x]
RoundTrip == Same(Parse(fmt, R, File(fmt, R, M, Ws("-"))), M)
Detected == fmt \in {"sms", "bin"} => Same(Parse("auto", R, File(fmt, R, M, Ws("-"))), M)
=============================================================================
