--------------------------------- MODULE Io --------------------------------
(***************************************************************************)
(* Matrix files.  A file is a sequence of words: <<"n", v>> (v a limb      *)
(* tuple) or <<"s", string>>; the end of a line is the word NL in the      *)
(* formats where lines matter.  Write gives the file of a matrix, Parse    *)
(* the matrix of a file.                                                   *)
(***************************************************************************)
EXTENDS Fflas
Wn(v) == <<"n", LOf(v)>>
We(R, x) == <<"n", IF R.wide THEN x ELSE LOf(x)>>
Ws(s) == <<"s", s>>
NL == Ws("nl")
RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN << >> ELSE Cat(f, n - 1) \o f[n]
(* f[1] sep f[2] sep ... f[n] *)
Join(f, n, sep) == Cat([i \in 1..n |-> f[i] \o (IF i < n THEN sep ELSE << >>)], n)
Comma == <<Ws(",")>>
RowList(R, M) == Join([i \in 1..M.m |-> <<Ws("[")>> \o Join([j \in 1..M.n |-> <<We(R, At(M, i, j))>>], M.n, Comma) \o <<Ws("]")>>], M.m, Comma)
Lines(R, M) == Cat([i \in 1..M.m |-> [j \in 1..M.n |-> We(R, At(M, i, j))] \o <<NL>>], M.m)
DenseF(R, M) == <<Wn(M.m), Wn(M.n)>> \o [x \in 1..(M.m * M.n) |-> We(R, M.e[x])]
Triples(R, M) ==
  LET T(x) == IF M.e[x] = Zero(R) THEN << >> ELSE <<Wn(((x - 1) \div M.n) + 1), Wn(((x - 1) % M.n) + 1), We(R, M.e[x])>>
  IN Cat([x \in 1..(M.m * M.n) |-> T(x)], M.m * M.n)
(* the third word of the first line (the cardinality) is informative only *)
SmsF(R, M, third) == <<Wn(M.m), Wn(M.n), third>> \o Triples(R, M) \o <<Wn(0), Wn(0), Wn(0)>>
Mapl(R, M) == <<Ws("Matrix"), Ws("("), Wn(M.m), Ws(","), Wn(M.n), Ws(","), Ws("[")>> \o RowList(R, M) \o <<Ws("]"), Ws(")"), Ws(";")>>
Sage(R, M) ==
  <<Ws("Matrix"), Ws("(")>> \o (IF IsZ(R) THEN <<Ws("ZZ")>> ELSE <<Ws("GF"), Ws("("), <<"n", IF R.wide THEN R.p ELSE LOf(R.p)>>, Ws(")")>>)
  \o <<Ws(","), Wn(M.m), Ws(","), Wn(M.n), Ws(","), Ws("[")>> \o RowList(R, M) \o <<Ws("]"), Ws(")")>>
File(fmt, R, M, third) ==
  CASE fmt = "dense" -> DenseF(R, M)
    [] fmt = "sms" -> SmsF(R, M, third)
    [] fmt = "bin" -> <<Ws("FFBinFmt")>> \o DenseF(R, M)
    [] fmt \in {"maple", "fmaple"} -> Mapl(R, M)
    [] fmt = "sage" -> Sage(R, M)
    [] fmt \in {"math", "field"} -> Lines(R, M)
(* ------------------------------- reading ------------------------------- *)
Num(w) == w[2]
RECURSIVE IntM(_, _)
IntM(m, i) == IF i > Len(m) THEN 0 ELSE m[i] + LB * IntM(m, i + 1)
IntOf(w) == IF w[1] # "n" THEN -1 ELSE w[2][1] * IntM(LMagS(w[2]), 1)
El(R, w) == IF R.wide THEN Can(R, Num(w)) ELSE IF IsZ(R) THEN IntOf(w) ELSE LET r == LMod(Num(w), LOf(R.p)) IN Can(R, IntOf(<<"n", r>>))
RECURSIVE Puts(_, _, _, _)
(* triples from word k on, the last one for a position wins *)
Puts(R, f, k, M) ==
  IF IntOf(f[k]) = 0 /\ IntOf(f[k + 1]) = 0 THEN M
  ELSE Puts(R, f, k + 3, [M EXCEPT !.e[(IntOf(f[k]) - 1) * M.n + IntOf(f[k + 1])] = El(R, f[k + 2])])
Parse(fmt, R, f) ==
  CASE fmt = "dense" -> LET m == IntOf(f[1])
                            n == IntOf(f[2]) IN [m |-> m, n |-> n, e |-> [x \in 1..(m * n) |-> El(R, f[x + 2])]]
    [] fmt = "bin" -> LET m == IntOf(f[2])
                          n == IntOf(f[3]) IN [m |-> m, n |-> n, e |-> [x \in 1..(m * n) |-> El(R, f[x + 3])]]
    [] fmt = "sms" -> Puts(R, f, 4, ZeroM(R, IntOf(f[1]), IntOf(f[2])))
    [] fmt = "auto" -> IF f[1] = Ws("FFBinFmt")
                       THEN LET m == IntOf(f[2])
                                n == IntOf(f[3]) IN [m |-> m, n |-> n, e |-> [x \in 1..(m * n) |-> El(R, f[x + 3])]]
                       ELSE Puts(R, f, 4, ZeroM(R, IntOf(f[1]), IntOf(f[2])))
(* nothing is promised about files that are not in the format *)
WellFormed(fmt, f) == /\ Len(f) > 1
                      /\ \A i \in DOMAIN f : f[i][1] = "s" => (fmt = "sms" /\ i = 3) \/ (fmt = "auto" /\ i \in {1, 3}) \/ (fmt = "bin" /\ i = 1)
IoAllowed(e, pre, post) ==
  CASE e.op = "iowrite" ->
         LET A == IF e.a.cm THEN Tr(Opd(e, pre, "A", e.a.n, e.a.m)) ELSE Opd(e, pre, "A", e.a.m, e.a.n)
         IN /\ post = pre
            /\ e.a.fmt = "sms" => Len(e.ret) > 2
            /\ e.ret = File(e.a.fmt, e.R, A, IF e.a.fmt = "sms" THEN e.ret[3] ELSE Ws("-"))
    [] e.op = "ioread" /\ ~WellFormed(e.a.fmt, e.a.file) -> TRUE
    [] e.op = "ioread" -> LET M == Parse(e.a.fmt, e.R, e.a.file)
                          IN post = pre /\ e.ret.ok /\ e.ret.m = M.m /\ e.ret.n = M.n /\ e.ret.e = M.e
    [] e.op = "ioperm" -> e.ret = <<Ws("[")>> \o Join([i \in 1..Len(e.a.P) |-> <<Wn(e.a.P[i])>>], Len(e.a.P), Comma) \o <<Ws("]")>>
IoOps == {"iowrite", "ioread", "ioperm"}
=============================================================================
