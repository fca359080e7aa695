------------------------------ MODULE TicatBg ------------------------------
(***************************************************************************)
(* Commands running in the background (%delay), and waiting for them.      *)
(*                                                                         *)
(* A case: [main, flows, bad, labels, nowait, sched]                       *)
(*   main    the sequence run; flows: name -> sequence                     *)
(*   items   [op, name, lab, w, ok, delay, apply, k, v]                    *)
(*     leaf  runs program `name`, showing label `lab` and the env keys it  *)
(*           sees; it then waits to be released; it writes ka := w (if not *)
(*           ""); programs named in c.setters set kb := name when called   *)
(*     flow  runs flows[name]                                              *)
(*     set   sets key k := v                                               *)
(*     wait, waitlast, waitcmd (name)                                      *)
(*   delay   (leaf, flow) run it in the background; apply: let its         *)
(*           settings be seen by what follows, too                         *)
(*   ok      its failure is tolerated                                      *)
(*   bad     labels that fail when released                                *)
(*   nowait  don't wait for background commands at the end                 *)
(*   sched   which of the waiting programs is released at each time        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Cases

VARIABLES c, n, main, tasks, out, errs, rc, obs
vars == <<c, n, main, tasks, out, errs, rc, obs>>

Thread(todo, env) == [todo |-> todo, env |-> env, st |-> "run", bad |-> FALSE, outs |-> <<>>]
Task(todo, env, name) == Thread(todo, env) @@ [name |-> name, waited |-> FALSE]

Init ==
  /\ c \in Cases
  /\ n = 1
  /\ main = Thread(c.main, [ka |-> "", kb |-> ""]) @@ [on |-> 0]
  /\ tasks = <<>>
  /\ out = <<>>
  /\ errs = 0
  /\ rc = 999
  /\ obs = <<>>

\* the env a called program starts with
Called(it, env) == IF it.op = "leaf" /\ it.name \in Range(c.setters) THEN [env EXCEPT !.kb = it.name] ELSE env
Mark(ok) == [op |-> "end", ok |-> ok]

\* after a failure: what is left to do starts behind the innermost call that
\* tolerates it
RECURSIVE Rescue(_)
Rescue(todo) ==
  IF todo = <<>> THEN [found |-> FALSE, todo |-> <<>>]
  ELSE IF Head(todo).op = "end" /\ Head(todo).ok THEN [found |-> TRUE, todo |-> Tail(todo)]
  ELSE Rescue(Tail(todo))

\* a thread takes a step of its own; it is not about to schedule or wait
Step(t) ==
  IF t.todo = <<>> THEN [t EXCEPT !.st = "end"]
  ELSE LET it == Head(t.todo)
       IN CASE it.op = "end"  -> [t EXCEPT !.todo = Tail(t.todo)]
            [] it.op = "set"  -> [t EXCEPT !.todo = Tail(t.todo), !.env[it.k] = it.v]
            [] it.op = "flow" -> [t EXCEPT !.todo = c.flows[it.name] \o <<Mark(it.ok)>> \o Tail(t.todo)]
            [] it.op = "leaf" -> [t EXCEPT !.st = "gate", !.env = Called(it, t.env)]
Plain(t) == t.todo = <<>> \/ (Head(t.todo).op \in {"end", "set", "leaf", "flow"} /\ (Head(t.todo).op \in {"leaf", "flow"} => ~Head(t.todo).delay))

\* a program is released
Ended(t) ==
  LET it == Head(t.todo)
      o  == Append(t.outs, it.lab)
      r  == Rescue(Tail(t.todo))
  IN IF it.lab \notin Range(c.bad)
     THEN [t EXCEPT !.st = "run", !.todo = Tail(t.todo), !.outs = o, !.env.ka = IF it.w = "" THEN @ ELSE it.w]
     ELSE IF it.ok THEN [t EXCEPT !.st = "run", !.todo = Tail(t.todo), !.outs = o]
     ELSE IF r.found THEN [t EXCEPT !.st = "run", !.todo = r.todo, !.outs = o]
     ELSE [t EXCEPT !.st = "end", !.todo = <<>>, !.outs = o, !.bad = TRUE]

Open == {i \in 1..Len(tasks) : ~tasks[i].waited}
Least(s) == CHOOSE i \in s : \A j \in s : i <= j
Most(s) == CHOOSE i \in s : \A j \in s : i >= j
\* the tasks a waiting command is to wait for
Wanted(it) ==
  CASE it.op = "wait"     -> Open
    [] it.op = "waitlast" -> IF Open = {} THEN {} ELSE {Most(Open)}
    [] it.op = "waitcmd"  -> LET s == {i \in Open : tasks[i].name = it.name} IN IF s = {} THEN {} ELSE {Most(s)}

\* 999: not ended yet
Running == rc = 999
TaskStep(i) ==
  /\ Running
  /\ tasks[i].st = "run"
  /\ tasks' = [tasks EXCEPT ![i] = Step(tasks[i])]
  /\ UNCHANGED <<c, n, main, out, errs, rc, obs>>

Exit(code) ==
  /\ rc' = code
  /\ obs' = Append(obs, [rc |-> code, out |-> out])

MainEnds ==
  /\ main.todo = <<>>
  /\ main.st = "run"
  /\ IF ~c.nowait /\ Open # {}
     THEN main' = [main EXCEPT !.st = "wait", !.on = Least(Open)] /\ UNCHANGED <<c, n, tasks, out, errs, rc, obs>>
     ELSE Exit(IF errs > 0 THEN 1 ELSE 0) /\ UNCHANGED <<c, n, main, tasks, out, errs>>
MainPlain ==
  /\ main.st = "run"
  /\ main.todo # <<>>
  /\ Plain(main)
  /\ main' = Step(main)
  /\ UNCHANGED <<c, n, tasks, out, errs, rc, obs>>
MainSchedules ==
  /\ main.st = "run"
  /\ main.todo # <<>>
  /\ Head(main.todo).op \in {"leaf", "flow"}
  /\ Head(main.todo).delay
  /\ LET it == Head(main.todo)
     IN /\ tasks' = Append(tasks, Task(<<[it EXCEPT !.delay = FALSE]>>, Called(it, main.env), it.name))
        /\ main' = [main EXCEPT !.todo = Tail(main.todo), !.env = IF it.apply THEN Called(it, @) ELSE @]
  /\ UNCHANGED <<c, n, out, errs, rc, obs>>
MainWaits ==
  /\ main.st = "run"
  /\ main.todo # <<>>
  /\ Head(main.todo).op \in {"wait", "waitlast", "waitcmd"}
  /\ LET w == Wanted(Head(main.todo))
     IN main' = IF w = {} THEN [main EXCEPT !.todo = Tail(main.todo)] ELSE [main EXCEPT !.st = "wait", !.on = Least(w)]
  /\ UNCHANGED <<c, n, tasks, out, errs, rc, obs>>
\* what a task put out is shown when it was waited for; its failure counts at
\* the end only
MainWaited ==
  /\ main.st = "wait"
  /\ tasks[main.on].st = "end"
  /\ tasks' = [tasks EXCEPT ![main.on].waited = TRUE]
  /\ out' = out \o tasks[main.on].outs
  /\ errs' = IF main.todo = <<>> /\ tasks[main.on].bad THEN errs + 1 ELSE errs
  /\ main' = [main EXCEPT !.st = "run", !.todo = IF @ = <<>> \/ Head(@).op = "wait" THEN @ ELSE Tail(@)]
  /\ UNCHANGED <<c, n, rc, obs>>
MainFails ==
  /\ main.st = "end" /\ main.bad
  /\ Exit(255)
  /\ UNCHANGED <<c, n, main, tasks, out, errs>>
MainStep == Running /\ (MainEnds \/ MainPlain \/ MainSchedules \/ MainWaits \/ MainWaited \/ MainFails)

Internal == MainStep \/ \E i \in 1..Len(tasks) : TaskStep(i)
Quiet ==
  /\ Running
  /\ main.st = "gate" \/ (main.st = "wait" /\ tasks[main.on].st # "end")
  /\ \A i \in 1..Len(tasks) : tasks[i].st # "run"

Pos(l) == CHOOSE i \in 1..Len(c.labels) : c.labels[i] = l
Seen(t) == <<Head(t.todo).lab, t.env.ka, t.env.kb>>
Gates == {Seen(tasks[i]) : i \in {j \in 1..Len(tasks) : tasks[j].st = "gate"}} \cup (IF main.st = "gate" THEN {Seen(main)} ELSE {})
GateSeq == SetToSortSeq(Gates, LAMBDA x, y : Pos(x[1]) < Pos(y[1]))

Release ==
  /\ Quiet
  /\ Gates # {}
  /\ LET g == GateSeq
         l == g[((IF n <= Len(c.sched) THEN c.sched[n] ELSE n) % Len(g)) + 1][1]
     IN /\ obs' = Append(obs, [gates |-> g, rel |-> l])
        /\ IF main.st = "gate" /\ Head(main.todo).lab = l
           THEN main' = Ended(main) /\ out' = Append(out, l) /\ UNCHANGED tasks
           ELSE LET i == CHOOSE j \in 1..Len(tasks) : tasks[j].st = "gate" /\ Head(tasks[j].todo).lab = l
                IN tasks' = [tasks EXCEPT ![i] = Ended(tasks[i])] /\ UNCHANGED <<main, out>>
  /\ n' = n + 1
  /\ UNCHANGED <<c, errs, rc>>

Next == Internal \/ Release
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AllDone == rc # 999

--------------------------------------------------------------------------
\* it never gets stuck: whatever waits, waits for a program still running
NeverStuck == Quiet => Gates # {}
Terminates == <>AllDone
\* nothing but its own steps changes what a thread sees
MainAlone == [][main.env' # main.env => tasks'= tasks \/ Len(tasks') > Len(tasks)]_vars
TasksAlone == [][\A i \in 1..Len(tasks) : tasks'[i].env # tasks[i].env => main' = main /\ \A j \in 1..Len(tasks) \ {i} : tasks'[j] = tasks[j]]_vars
\* a task's output is shown once, in one piece
Once == \A i, j \in 1..Len(out) : i # j => out[i] # out[j]
\* what is waited for, has ended; when all is well everything was waited for
Waited == \A i \in 1..Len(tasks) : tasks[i].waited => tasks[i].st = "end"
NothingLost == rc \in {0, 1} /\ ~c.nowait => Open = {}
FailuresTold == rc = 0 /\ ~c.nowait => \A i \in 1..Len(tasks) : tasks[i].bad => \E j \in 1..Len(c.main) : c.main[j].op \in {"wait", "waitlast", "waitcmd"} \/ c.main[j].op = "flow"
=============================================================================
