----------------------------- MODULE TicatHooks -----------------------------
(***************************************************************************)
(* What is run when a session ends: after an execution (TicatExec), the    *)
(* command named by HDONE (it succeeded) or HERROR (it did not), then the  *)
(* one named by HEXIT, with the env as the execution left it.  Nothing of  *)
(* this is recorded; a failing one ends it all.                            *)
(* Invocations refused before they have a session end without it.          *)
(***************************************************************************)
EXTENDS TicatExecProps

HDONE == "sys.event.hook.done"
HERROR == "sys.event.hook.error"
HEXIT == "sys.event.hook.exit"

VARIABLE hk   \* [todo, code, rec, main, st]
hvars == <<vars, hk>>

InitH == Init /\ hk = [todo |-> <<>>, code |-> 1000, rec |-> <<>>, main |-> 0, st |-> "main"]

Main == hk.st = "main" /\ Next /\ UNCHANGED hk

\* the execution is over: its result and record are settled
Ends ==
  /\ phase = "done" /\ hk.st = "main"
  /\ hk' = [todo |-> IF rec = <<>> /\ rc = 1 THEN <<>> ELSE <<IF rc = 0 THEN HDONE ELSE HERROR, HEXIT>>,
            code |-> rc, rec |-> rec, main |-> Len(runs), st |-> "next"]
  /\ env' = SubSeq(env, 1, 2)
  /\ UNCHANGED <<prog, phase, frames, cause, pend, runs, rec, rc>>

HookCall(v) == [c |-> v, args |-> <<>>, env |-> <<>>, ok |-> FALSE, rep |-> ""]
RunHook ==
  /\ hk.st = "next" /\ hk.todo # <<>>
  /\ LET v == IF Has(env, Head(hk.todo)) THEN Get(env, Head(hk.todo)) ELSE ""
     IN IF v = "" THEN /\ hk' = [hk EXCEPT !.todo = Tail(@)] /\ UNCHANGED <<phase, frames, cause, rc>>
        ELSE IF ~Known(v) THEN /\ hk' = [hk EXCEPT !.todo = <<>>, !.code = 254] /\ UNCHANGED <<phase, frames, cause, rc>>
        ELSE /\ hk' = [hk EXCEPT !.todo = Tail(@), !.st = "in"]
             /\ phase' = "run" /\ frames' = <<Frame(<<HookCall(v)>>, "")>> /\ cause' = "" /\ rc' = 1000
  /\ UNCHANGED <<prog, env, pend, runs, rec>>
Hook == hk.st = "in" /\ Next /\ UNCHANGED hk
HookEnds ==
  /\ phase = "done" /\ hk.st = "in"
  /\ hk' = IF rc = 0 THEN [hk EXCEPT !.st = "next"] ELSE [hk EXCEPT !.st = "next", !.todo = <<>>, !.code = 254]
  /\ env' = SubSeq(env, 1, 2)
  /\ UNCHANGED <<prog, phase, frames, cause, pend, runs, rec, rc>>
Over ==
  /\ hk.st = "next" /\ hk.todo = <<>>
  /\ hk' = [hk EXCEPT !.st = "over"]
  /\ rc' = hk.code /\ rec' = hk.rec
  /\ UNCHANGED <<prog, phase, env, frames, cause, pend, runs>>

NextH == Main \/ Ends \/ RunHook \/ Hook \/ HookEnds \/ Over
SpecH == InitH /\ [][NextH]_hvars /\ WF_hvars(NextH)
IsOver == hk.st = "over"

--------------------------------------------------------------------------
HasHook(k) == Has(env, k) /\ Get(env, k) # ""
\* hooks never run while the execution goes on, nor does their end change what
\* was recorded
OnlyAtEnd == hk.st # "main" => phase # "parse" /\ hk.main <= Len(runs)
RecordSettled == IsOver => rec = hk.rec
\* the exit status is the one of the execution unless a hook failed
StatusKept == IsOver => rc \in {hk.code, 254}
NoHooksNoRuns == (IsOver /\ ~HasHook(HDONE) /\ ~HasHook(HERROR) /\ ~HasHook(HEXIT)) => Len(runs) = hk.main
AlwaysOver == <>IsOver
=============================================================================
