-------------------------------- MODULE Omp --------------------------------
(***************************************************************************)
(* The OpenMP tasking model the parallel layer relies on, and which the    *)
(* controlled scheduler (harness/vomp.cpp) must respect: the log of an     *)
(* execution is a sequence of <<kind, thread, task, x>>                    *)
(*   i  the thread starts an implicit task of team x                       *)
(*   c  the running task x of the thread creates the explicit task         *)
(*   s  the thread starts the task, suspending x                           *)
(*   e  the task ends          w / W  taskwait is entered / left           *)
(*   b / B  a barrier is entered / left     x  the implicit task ends      *)
(* State: per thread the stack of suspended tasks (top: the running one),  *)
(* per task its parent, team and life cycle.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
OmpOps == {"schedule"}
OInit == [ok |-> TRUE, st |-> [t \in {} |-> <<>>], par |-> [t \in {} |-> 0], team |-> [t \in {} |-> 0],
          life |-> [t \in {} |-> ""], bar |-> {}]
Stack(s, t) == IF t \in DOMAIN s.st THEN s.st[t] ELSE <<>>
Top(s, t) == IF Stack(s, t) = <<>> THEN 0 ELSE Last(Stack(s, t))
RECURSIVE Desc(_, _, _)
Desc(s, k, a) == IF k = a THEN TRUE ELSE IF k = 0 THEN FALSE ELSE Desc(s, s.par[k], a)
Kids(s, k) == {j \in DOMAIN s.par : s.par[j] = k}
Done(s, K) == \A j \in K : s.life[j] = "ended"
Put(f, k, v) == (k :> v) @@ f
OStep(s, ev) ==
  LET t == ev[2]
      k == ev[3]
      x == ev[4]
  IN CASE ev[1] = "i" -> [s EXCEPT !.ok = @ /\ k \notin DOMAIN s.par, !.st = Put(@, t, Append(Stack(s, t), k)),
                            !.par = Put(@, k, 0), !.team = Put(@, k, x), !.life = Put(@, k, "running")]
       [] ev[1] = "c" -> [s EXCEPT !.ok = @ /\ k \notin DOMAIN s.par /\ Top(s, t) = x,
                            !.par = Put(@, k, x), !.team = Put(@, k, s.team[x]), !.life = Put(@, k, "ready")]
       [] ev[1] = "s" -> (* a thread starts a ready task: a descendant of the one it suspends, or any of the team while it waits at a barrier *)
                         [s EXCEPT !.ok = @ /\ s.life[k] = "ready" /\ Top(s, t) = x
                                          /\ (Desc(s, k, x) \/ (x \in s.bar /\ s.team[k] = s.team[x])),
                            !.st = Put(@, t, Append(Stack(s, t), k)), !.life = Put(@, k, "running")]
       [] ev[1] = "e" -> [s EXCEPT !.ok = @ /\ Top(s, t) = k /\ s.life[k] = "running", !.st = Put(@, t, Front(Stack(s, t))), !.life = Put(@, k, "ended")]
       [] ev[1] = "w" -> [s EXCEPT !.ok = @ /\ Top(s, t) = k]
       [] ev[1] = "W" -> [s EXCEPT !.ok = @ /\ Top(s, t) = k /\ Done(s, Kids(s, k))]
       [] ev[1] = "b" -> [s EXCEPT !.ok = @ /\ Top(s, t) = k /\ s.par[k] = 0, !.bar = @ \cup {k}]
       [] ev[1] = "B" -> [s EXCEPT !.ok = @ /\ Top(s, t) = k /\ k \in s.bar /\ Done(s, {j \in DOMAIN s.par : s.par[j] # 0 /\ s.team[j] = s.team[k]}), !.bar = @ \ {k}]
       [] ev[1] = "x" -> [s EXCEPT !.ok = @ /\ Top(s, t) = k /\ k \notin s.bar, !.st = Put(@, t, Front(Stack(s, t))), !.life = Put(@, k, "ended")]
       [] OTHER -> [s EXCEPT !.ok = FALSE]
OmpOk(log) == FoldLeft(LAMBDA s, ev : IF s.ok THEN OStep(s, ev) ELSE s, OInit, log).ok
OmpAllowed(e, pre, post) == post = pre /\ OmpOk(e.a.log)
=============================================================================
