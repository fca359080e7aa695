--------------------------- MODULE TicatExecProps ---------------------------
(***************************************************************************)
(* What has to hold of every execution, stated without reference to how    *)
(* the machine of TicatExec gets there.                                    *)
(***************************************************************************)
EXTENDS TicatExec

-----------------------------------------------------------------------------
(* Order.  The meaning of a sequence, ignoring env: which programs run, in *)
(* which order, and how it ends ("ok", "panic", "false").                  *)

RECURSIVE MeanCall(_), MeanSeq(_, _)
MeanCall(call) ==
  LET d == Cmds[call.c]
      f == IF HasFlow(d) THEN MeanSeq(d.flow, 1) ELSE [names |-> <<>>, res |-> "ok"]
      own == IF f.res = "ok" /\ HasFile(d)
             THEN [names |-> Append(f.names, call.c), res |-> IF d.fail /\ ~call.ok THEN "panic" ELSE "ok"]
             ELSE f
      res == IF own.res # "ok" /\ call.ok THEN "ok"
             ELSE IF own.res = "panic" /\ d.quiet THEN "false"
             ELSE own.res
  IN [names |-> own.names, res |-> res]
MeanSeq(calls, n) ==
  IF n > Len(calls) THEN [names |-> <<>>, res |-> "ok"]
  ELSE LET c == MeanCall(calls[n])
       IN IF c.res # "ok" THEN c
          ELSE LET r == MeanSeq(calls, n + 1) IN [r EXCEPT !.names = c.names \o @]

Names == [i \in 1..Len(runs) |-> runs[i].c]
WellFormed == \A n \in DOMAIN Cmds : \A i \in 1..Len(Cmds[n].flow) : CallParses(Cmds[n].flow[i])
MainParses == \A i \in 1..Len(C.main) : CallParses(C.main[i])
RECURSIVE HasTpl(_)
HasTpl(s) == Find(s, "[[", 1) # 0
CallHasTpl(c) == HasTpl(c.c) \/ (\E i \in 1..Len(c.args) : HasTpl(c.args[i].v)) \/ (\E i \in 1..Len(c.env) : HasTpl(c.env[i].v))
NoTemplates == \A n \in DOMAIN Cmds :
  /\ \A i \in 1..Len(Cmds[n].flow) : ~CallHasTpl(Cmds[n].flow[i])
  /\ \A i \in 1..Len(Cmds[n].genv) : ~HasTpl(Cmds[n].genv[i].v)

\* at every moment what ran is a prefix of what the text of the sequence says
OrderPrefix ==
  (MainParses /\ WellFormed) => IsPrefix(Names, MeanSeq(C.main, 1).names)
\* and when it is over it is all of it, and the exit status tells how it went
OrderComplete ==
  (phase = "done" /\ Len(rec) > 1 /\ MainParses /\ WellFormed /\ NoTemplates)
    => LET m == MeanSeq(C.main, 1)
       IN /\ Names = m.names
          /\ rc = CASE m.res = "ok" -> 0 [] m.res = "panic" -> 255 [] m.res = "false" -> 1
\* refused invocations run nothing
RefusedRunsNothing ==
  (phase = "done" /\ rc # 0 /\ (~MainParses \/ (\E n \in DOMAIN Cmds : FALSE))) => runs = <<>>
NothingBeforeChecks == phase \in {"parse", "check"} => (runs = <<>> /\ rec = <<>>)
SuccessMeansAllRan == (phase = "done" /\ rc = 0) => (rec # <<>> /\ rec[Len(rec)].e = "done" /\ rec[Len(rec)].r = "OK")

-----------------------------------------------------------------------------
(* Env discipline *)

\* the layers mirror the nesting of what is being executed
Shape ==
  phase = "run" =>
    /\ env[1].ty = "base" /\ env[2].ty = "session"
    /\ \A i \in 3..Len(env) : env[i].ty = IF i % 2 = 1 THEN "cmd" ELSE "sub"
    /\ Len(env) = 2 + 2 * (Len(frames) - 1) + (IF Top.st = "next" THEN 0 ELSE 1)
\* once all is over nothing but the shared layer is left, the saved values only ever shrink
CleanAtEnd == (phase = "done" /\ rc = 0) => Len(env) = 2
BaseOnlyShrinks ==
  \A k \in DOMAIN env[1].kv : \E i \in 1..Len(C.base) : C.base[i].k = k /\ C.base[i].v = env[1].kv[k]
\* no value of a layer belonging to a call or flow survives it, nothing below changes
\* except the shared session values (and removals)
EndRestores ==
  [][phase = "run" /\ Len(env') = Len(env) - 1 =>
       \A i \in 1..Len(env') : env'[i] = env[i]]_vars
\* only the shared layer takes values of programs
RunTouchesSharedOnly ==
  [][Len(runs') > Len(runs) =>
       \A i \in 3..Len(env) : \A k \in DOMAIN env[i].kv : Len(env') >= i => k \in DOMAIN env'[i].kv /\ env'[i].kv[k] = env[i].kv[k]]_vars

-----------------------------------------------------------------------------
(* The record *)

RECURSIVE Balanced(_, _, _)
\* entries nest like brackets
Balanced(r, n, st) ==
  IF n > Len(r) THEN TRUE
  ELSE CASE r[n].e = "start" -> Balanced(r, n + 1, Append(st, r[n].c))
         [] r[n].e = "sub" -> Balanced(r, n + 1, Append(st, "("))
         [] r[n].e = "subend" -> Len(st) > 0 /\ st[Len(st)] = "(" /\ Balanced(r, n + 1, SubSeq(st, 1, Len(st) - 1))
         [] r[n].e = "end" -> Len(st) > 0 /\ st[Len(st)] = r[n].c /\ Balanced(r, n + 1, SubSeq(st, 1, Len(st) - 1))
         [] r[n].e = "done" -> st = <<>> /\ n = Len(r)
RecBalanced == Balanced(rec, 1, <<>>)
\* every program that ran has its entry: runs and records tell the same story
RecStartsCoverRuns ==
  LET starts == SelectSeq(rec, LAMBDA x : x.e = "start" /\ HasFile(Cmds[x.c]))
  IN Len(runs) <= Len(starts)
=============================================================================
