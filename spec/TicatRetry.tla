----------------------------- MODULE TicatRetry -----------------------------
(***************************************************************************)
(* Retrying recorded sessions.                                             *)
(*                                                                         *)
(* The sequence of a TicatExec case is run, breaks at some point, and is   *)
(* retried, maybe repeatedly.  Beyond TicatExec a case has                 *)
(*   att : one entry per attempt, [faults, from]                           *)
(*         faults  sequence of [n, kind]: the attempt's n-th program       *)
(*                 "fail"s or takes ticat down with it ("crash")           *)
(*         from    the earlier attempt whose record is retried (0 for the  *)
(*                 first attempt)                                          *)
(*                                                                         *)
(* A retry goes through the sequence as if it was run again from the       *)
(* start, except that a program which succeeded according to the record    *)
(* is not run a second time: what it did to the env is taken from there.   *)
(***************************************************************************)
EXTENDS TicatExecProps, Json

VARIABLES
  att,     \* number of the current attempt
  done,    \* per attempt: the calls whose programs succeeded, as paths of positions
  fresh,   \* succeeded so far in the current attempt (or skipped)
  log      \* per attempt: what was run and the exit status

rvars == <<prog, phase, env, frames, cause, pend, runs, rec, rc, att, done, fresh, log>>

Path == [i \in 1..Len(frames) |-> frames[i].pc]
Before1 == IF C.att[att].from = 0 THEN {} ELSE done[C.att[att].from]
FaultAt(n) ==
  LET S == {i \in 1..Len(C.att[att].faults) : C.att[att].faults[i].n = n}
  IN IF S = {} THEN "" ELSE C.att[att].faults[CHOOSE i \in S : TRUE].kind

RInit == Init /\ att = 1 /\ done = <<>> /\ fresh = {} /\ log = <<>>

SkipFile ==
  /\ phase = "run" /\ Top.st = "file" /\ Path \in Before1
  /\ env' = ApplyEff(env, CurCmd.eff, 1)
  /\ frames' = SetTop([Top EXCEPT !.st = "ok"])
  /\ fresh' = fresh \cup {Path}
  /\ UNCHANGED <<prog, phase, cause, pend, runs, rec, rc, att, done, log>>

RunFileR ==
  /\ phase = "run" /\ Top.st = "file" /\ Path \notin Before1 /\ CurCmd.dep
  /\ runs' = Append(runs, [c |-> CurCall.c, a |-> ArgList(CurCall.c, Top.argv), s |-> SessionView(env, KEYS)])
  /\ LET f == FaultAt(Len(runs) + 1)
     IN IF f = "crash"
        THEN /\ phase' = "done" /\ rc' = 137
             /\ UNCHANGED <<env, frames, cause, fresh>>
        ELSE IF (CurCmd.fail \/ f = "fail") /\ ~CurCall.ok
        THEN /\ phase' = "unwind" /\ cause' = "panic"
             /\ frames' = SetTop([Top EXCEPT !.st = "failed"])
             /\ UNCHANGED <<env, rc, fresh>>
        ELSE /\ env' = ApplyEff(env, CurCmd.eff, 1)
             /\ frames' = SetTop([Top EXCEPT !.st = "ok"])
             /\ fresh' = fresh \cup {Path}
             /\ UNCHANGED <<phase, cause, rc>>
  /\ UNCHANGED <<prog, pend, rec, att, done, log>>

\* everything else is as in any execution
Other ==
  /\ \/ Parse \/ Preflight \/ StartCall \/ EnterSubFlow \/ LeaveSubFlow \/ LacksOsCmd \/ EndCall
     \/ FailCall \/ FailSeq \/ PassCall \/ FailMain \/ EndMain
  /\ UNCHANGED <<att, done, fresh, log>>

Started == \E i \in 1..Len(rec) : rec[i].e = "start"
Now == [runs |-> runs, rc |-> rc]
More == att < Len(C.att) /\ Started

Retry ==
  /\ phase = "done" /\ More
  /\ log' = Append(log, Now) /\ done' = Append(done, fresh) /\ fresh' = {}
  /\ att' = att + 1
  /\ phase' = "parse" /\ env' = BaseEnv(C) /\ frames' = <<>> /\ cause' = "" /\ pend' = <<>>
  /\ runs' = <<>> /\ rec' = <<>> /\ rc' = 1000
  /\ UNCHANGED prog

RNext == SkipFile \/ RunFileR \/ Other \/ Retry
RSpec == RInit /\ [][RNext]_rvars /\ WF_rvars(RNext)

Over == phase = "done" /\ ~More
Log == Append(log, Now)

-----------------------------------------------------------------------------
(* What has to hold *)

RECURSIVE Chain(_)
\* the attempts a retry builds on, oldest first
Chain(i) == IF i = 0 THEN <<>> ELSE Append(Chain(C.att[i].from), i)

\* the names of the programs which succeeded in attempt i; its last one failed
\* when the attempt did
Good(i) ==
  LET r == Log[i].runs n == Len(r)
      names == [j \in 1..n |-> r[j].c]
  IN IF Log[i].rc = 0 THEN names ELSE SubSeq(names, 1, n - 1)

\* no call of a chain of attempts succeeds twice
NeverTwice ==
  phase \in {"run", "unwind"} => \A p \in Before1 : p \in fresh \/ Len(p) > 0
SkipsOnlyDone == [][att' = att /\ fresh' # fresh /\ runs' = runs => Path \in Before1]_rvars
RunsOnlyUndone == [][Len(runs') > Len(runs) => Path \notin Before1]_rvars

\* once an attempt gets to the end, the programs of its chain are together just
\* the programs of the sequence, every one once and in order
NoneFails == \A n \in DOMAIN Cmds : ~Cmds[n].fail
RECURSIVE Concat(_, _)
Concat(ch, i) == IF i > Len(ch) THEN <<>> ELSE Good(ch[i]) \o Concat(ch, i + 1)
ResumeComplete ==
  (Over /\ NoneFails /\ WellFormed /\ NoTemplates)
    => \A i \in 1..Len(Log) : Log[i].rc = 0 => Concat(Chain(i), 1) = MeanSeq(C.main, 1).names
\* retrying a session which succeeded runs nothing
NothingLeft ==
  Over => \A i \in 1..Len(Log) : C.att[i].from # 0 =>
            (Log[C.att[i].from].rc = 0 => Log[i].rc = 0 /\ Log[i].runs = <<>>)
\* an attempt never gets less far than the one it builds on
Monotone == \A i \in 1..Len(done) : C.att[i].from # 0 => done[C.att[i].from] \subseteq done[i]
=============================================================================
