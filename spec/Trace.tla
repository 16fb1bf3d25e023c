------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: is a recorded execution of the real library a         *)
(* behaviour of the specification?  Every event of the trace is a client   *)
(* step (e.set: values written by the client) followed by one library call *)
(* whose observed effect (e.post: the buffers that changed; e.ret) must be *)
(* allowed by the action of that routine.  A rejected event is reported    *)
(* and recorded in `bad'; validation goes on from the observed memory so   *)
(* that one rejection does not hide the rest of the trace.                 *)
(***************************************************************************)
EXTENDS Perm, Split, Sparse, Rns, Io, Cert, Qs, Omp, TLC, Json, IOUtils, SequencesExt

TraceFile == IOEnv.TRACE
Events == ndJsonDeserialize(TraceFile)

Sd == INSTANCE Simd

VARIABLES l, mem, bad
vars == <<l, mem, bad>>

Allowed(e, pre, post) ==
  CASE e.op = "fgemm"   -> post = Fgemm(e, pre)
    [] e.op = "fsquare" -> post = Fsquare(e, pre)
    [] e.op \in L1Ops -> L1Allowed(e, pre, post)
    [] e.op \in L2Ops -> L2Allowed(e, pre, post)
    [] e.op \in SymOps -> SymAllowed(e, pre, post)
    [] e.op \in TriOps -> TriAllowed(e, pre, post)
    [] e.op \in LuOps -> LuAllowed(e, pre, post)
    [] e.op \in SolOps -> SolAllowed(e, pre, post)
    [] e.op \in PermOps -> PermAllowed(e, pre, post)
    [] e.op \in SparseOps -> SparseAllowed(e, pre, post)
    [] e.op \in IoOps -> IoAllowed(e, pre, post)
    [] e.op \in CertOps -> CertAllowed(e, pre, post)
    [] e.op \in RandOps -> RandAllowed(e, pre, post)
    [] e.op \in QsOps -> QsAllowed(e, pre, post)
    [] e.op \in OmpOps -> OmpAllowed(e, pre, post)
    [] e.op \in Sd!SimdOps -> Sd!SimdAllowed(e, pre, post)
    [] e.op \in RnsOps -> RnsAllowed(e, pre, post)
    [] e.op \in SplitOps -> SplitAllowed(e, pre, post)

TInit == l = 1 /\ mem = [x \in {} |-> <<>>] /\ bad = <<>>
Step ==
  /\ l <= Len(Events)
  /\ LET e    == Events[l]
         pre  == IF DOMAIN e.set = {} THEN mem ELSE e.set
         post == e.post @@ pre
         ok   == DOMAIN e.post \subseteq DOMAIN pre /\ Allowed(e, pre, post)
     IN /\ bad' = IF ok THEN bad ELSE Append(bad, l)
        /\ IF ok THEN TRUE ELSE PrintT(<<"REJECTED", l, e.op, e.c>>)
        /\ mem' = post
  /\ l' = l + 1
TNext == Step
TSpec == TInit /\ [][TNext]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Events)
NoBad == TRUE
=============================================================================
