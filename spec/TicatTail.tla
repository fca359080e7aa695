----------------------------- MODULE TicatTail -----------------------------
(***************************************************************************)
(* Sequences with commands that inspect or save the sequence they are in.  *)
(*                                                                         *)
(* A case is [segs : sequence of segments, bad : BOOLEAN].  A segment is   *)
(*   [k |-> "empty"]                  nothing between two separators       *)
(*   [k |-> "prog", n]                a program                            *)
(*   [k |-> "flow", n, body]          a flow: names of programs, or        *)
(*                                    "?" for an inspecting command        *)
(*   [k |-> "insp"]                   describing and searching commands    *)
(*   [k |-> "save", n]                saving as flow n                     *)
(*   [k |-> "cmd"]                    shows the one command it follows     *)
(*   [k |-> "list"], [k |-> "view"]   listing commands                     *)
(*   [k |-> "plain"]                  others which only show something     *)
(*   [k |-> "bad"]                    text which is no command             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

CONSTANT Cases

VARIABLES case, phase, queue, tailCall, runs, stored, rc
vars == <<case, phase, queue, tailCall, runs, stored, rc>>

Priority(s) == s.k \in {"insp", "save", "cmd"}
TailAble(s) == s.k \in {"insp", "cmd", "list", "view"}
\* ends the sequence it is executed in
Clears(s) == s.k \in {"insp", "save", "list"}
\* must follow the one command it is about
IsEmpty(s) == s.k = "empty"

RECURSIVE TrimEnd(_)
TrimEnd(s) == IF s = <<>> \/ ~IsEmpty(s[Len(s)]) THEN s ELSE TrimEnd(SubSeq(s, 1, Len(s) - 1))

\* the commands at the end which take the rest as their object come first
RECURSIVE ToFront(_)
Moves(s) == Len(s) > 1 /\ (IsEmpty(s[Len(s) - 1]) \/ Priority(s[Len(s)]))
ToFront(s) ==
  IF ~Moves(s) THEN s
  ELSE LET n == Len(s)
           rest == IF IsEmpty(s[n - 1]) THEN SubSeq(s, 1, n - 2) ELSE SubSeq(s, 1, n - 1)
       IN <<s[n]>> \o ToFront(TrimEnd(rest))
NonEmpty(s) == SelectSeq(s, LAMBDA x : ~IsEmpty(x))

InitFor(c) ==
  /\ case = c /\ phase = "read" /\ queue = <<>> /\ tailCall = "no" /\ runs = <<>> /\ stored = <<>> /\ rc = 1000
Init == \E c \in Cases : InitFor(c)

Stop(code) == phase' = "done" /\ rc' = code

Read ==
  /\ phase = "read"
  /\ LET f == ToFront(case.segs)
         moved == Moves(case.segs)
         tc == moved /\ TailAble(f[1]) /\ Len(f) <= 2
         hasBad == \E i \in 1..Len(f) : f[i].k = "bad"
     IN /\ queue' = NonEmpty(f)
        /\ tailCall' = IF moved THEN (IF tc THEN "call" ELSE "moved") ELSE "no"
        /\ IF NonEmpty(f) = <<>> THEN Stop(0)
           ELSE IF moved /\ Len(f) = 2 /\ ~Priority(f[1]) /\ ~TailAble(f[1]) THEN Stop(255)
           \* whether an inspecting command copes with text that is no command is up to it (rc -1)
           ELSE IF hasBad THEN Stop(IF NonEmpty(f)[1].k = "insp" THEN 2000 ELSE 1)
           ELSE phase' = "run" /\ UNCHANGED rc
  /\ UNCHANGED <<case, runs, stored>>

Head1 == queue[1]
Drop == queue' = SubSeq(queue, 2, Len(queue))

RECURSIVE BodyRuns(_)
BodyRuns(b) == IF b = <<>> \/ b[1] = "?" THEN <<>> ELSE <<b[1]>> \o BodyRuns(SubSeq(b, 2, Len(b)))

Exec ==
  /\ phase = "run" /\ queue # <<>>
  /\ LET s == Head1
         \* with a command moved to the front there is no session for programs to run in
         noSession == tailCall # "no"
         Stay == UNCHANGED <<runs, stored, queue, tailCall>>
         Go == Drop /\ UNCHANGED <<phase, rc, stored, tailCall>>
     IN CASE s.k = "prog" -> IF noSession THEN Stop(255) /\ Stay ELSE runs' = Append(runs, s.n) /\ Go
          [] s.k = "flow" -> IF noSession /\ BodyRuns(s.body) # <<>> THEN Stop(255) /\ Stay
                             ELSE runs' = runs \o BodyRuns(s.body) /\ Go
          [] s.k \in {"insp", "list"} -> Stop(0) /\ Stay
          \* the remaining ones are what is saved
          [] s.k = "save" -> Stop(0) /\ stored' = Append(stored, s.n) /\ UNCHANGED <<runs, queue, tailCall>>
          \* without an argument it needs exactly one command in front of it (and that one without arguments,
          \* which this specification leaves open for commands of ticat itself)
          [] s.k = "cmd" -> Stop(IF tailCall = "call" /\ Len(queue) = 2
                                 THEN (IF queue[2].k \in {"prog", "flow"} THEN 0 ELSE 2000) ELSE 255) /\ Stay
          [] s.k \in {"view", "plain"} -> IF tailCall = "call" THEN Stop(0) /\ Stay ELSE Go /\ UNCHANGED runs
  /\ UNCHANGED case

End == phase = "run" /\ queue = <<>> /\ Stop(0) /\ UNCHANGED <<case, queue, tailCall, runs, stored>>

Next == Read \/ Exec \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
LastSeg == case.segs[Len(case.segs)]
Inspecting(s) == s.k \in {"insp", "save", "cmd"}
InTail == Len(case.segs) > 1 /\ IsEmpty(case.segs[Len(case.segs) - 1])
\* nothing is ever executed by a sequence that ends in an inspecting command
InspectRunsNothing == (Inspecting(LastSeg) \/ (InTail /\ LastSeg.k # "empty")) => runs = <<>>
\* nothing is stored but by the saving command, and only under its name
StoresOnlySaved == \A i \in 1..Len(stored) : \E j \in 1..Len(case.segs) : case.segs[j].k = "save" /\ case.segs[j].n = stored[i]
\* without any such command everything is executed
PlainRunsAll ==
  (phase = "done" /\ \A i \in 1..Len(case.segs) : case.segs[i].k \in {"prog", "flow"}) =>
    runs = FlattenSeq([i \in 1..Len(case.segs) |-> IF case.segs[i].k = "prog" THEN <<case.segs[i].n>> ELSE BodyRuns(case.segs[i].body)])
Finishes == <>(phase = "done")
=============================================================================
