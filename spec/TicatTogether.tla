--------------------------- MODULE TicatTogether ---------------------------
(***************************************************************************)
(* Several invocations of ticat running at the same time on the same       *)
(* stores.  Each reads what it needs at one moment, decides, writes what   *)
(* it has to write to files of its own aside, and puts those in place one  *)
(* by one; between any two of these steps the others may do any of theirs. *)
(* So changes may get lost (the later one wins), but a store always holds  *)
(* one complete content, and a reader gets one it had.                     *)
(*                                                                         *)
(* A case: [setup, ops] sequences of operations (see TicatStoreOps, and    *)
(*   "see" f: reads what is stored); those of setup run one by one, those  *)
(*   of ops at the same time.                                              *)
(* OwnTmp: each invocation writes to a file of its own (what is required); *)
(* if not they share one per store, which TLC shows to be not enough.      *)
(***************************************************************************)
EXTENDS TicatStoreOps

CONSTANTS Cases, OwnTmp
VARIABLES case, pc, files, tmp, st
vars == <<case, pc, files, tmp, st>>

Procs == DOMAIN case.ops
Op(i) == case.ops[i]
\* files aside are known by number (an open file stays the same if it gets renamed)
NoTmp == 0
Fresh == [todo |-> {}, cur |-> Idle, phase |-> 0, end |-> "", ok |-> "wait", saw |-> NONE, seen |-> FALSE]

RECURSIVE Setup(_, _)
Setup(fs, ops) == IF ops = <<>> THEN fs ELSE Setup(DoneAll(fs, Plan(fs, ops[1]).steps), Tail(ops))

Init ==
  /\ case \in Cases
  /\ pc = 0
  /\ files = NoFiles
  /\ tmp = [p \in Paths |-> [i \in 0..3 |-> NONE]]
  /\ st = [i \in Procs |-> Fresh]
Start ==
  /\ pc = 0 /\ pc' = 1
  /\ files' = Setup(files, case.setup)
  /\ UNCHANGED <<case, tmp, st>>

Upd(i, s) == st' = [st EXCEPT ![i] = s]
Begin(i) ==
  /\ pc = 1 /\ st[i].ok = "wait"
  /\ LET p == Plan(files, Op(i)) IN Upd(i, [st[i] EXCEPT !.todo = p.steps, !.ok = IF p.ok THEN "ok" ELSE "fail"])
  /\ UNCHANGED <<case, pc, files, tmp>>
See(i) ==
  /\ pc = 1 /\ st[i].ok = "ok" /\ st[i].end = "" /\ Op(i).op = "see" /\ ~st[i].seen
  /\ Upd(i, [st[i] EXCEPT !.saw = files[Op(i).f], !.seen = TRUE])
  /\ UNCHANGED <<case, pc, files, tmp>>
Pick(i) ==
  /\ pc = 1 /\ st[i].ok # "wait" /\ st[i].cur = Idle
  /\ \E s \in st[i].todo : Upd(i, [st[i] EXCEPT !.cur = s, !.todo = @ \ {s}, !.phase = 0])
  /\ UNCHANGED <<case, pc, files, tmp>>
\* the file aside a process writes to
Aside(i) == IF OwnTmp THEN i ELSE 0
Write(i) ==
  LET s == st[i] IN
  /\ pc = 1 /\ s.cur.k = "put" /\ s.phase < 2
  /\ tmp' = [tmp EXCEPT ![s.cur.p][Aside(i)] = IF s.phase = 0 THEN EMPTY ELSE s.cur.c]
  /\ Upd(i, [s EXCEPT !.phase = @ + 1])
  /\ UNCHANGED <<case, pc, files>>
Replace(i) ==
  LET s == st[i] IN
  /\ pc = 1 /\ s.cur.k = "put" /\ s.phase = 2
  /\ IF tmp[s.cur.p][Aside(i)] = NONE
     THEN /\ Upd(i, [s EXCEPT !.cur = Idle, !.todo = {}, !.ok = "fail"])
          /\ UNCHANGED <<files, tmp>>
     ELSE /\ files' = [files EXCEPT ![s.cur.p] = tmp[s.cur.p][Aside(i)]]
          /\ tmp' = [tmp EXCEPT ![s.cur.p][Aside(i)] = NONE]
          /\ Upd(i, [s EXCEPT !.cur = Idle])
  /\ UNCHANGED <<case, pc>>
AtOnce(i) ==
  LET s == st[i] IN
  /\ pc = 1 /\ s.cur.k \in {"del", "move"}
  /\ IF files[s.cur.p] # NONE
     THEN files' = Done1(files, s.cur) /\ Upd(i, [s EXCEPT !.cur = Idle])
     ELSE \* somebody else took it away: nothing to do any more, or a failure
          /\ UNCHANGED files
          /\ \/ s.cur.k = "del" /\ Upd(i, [s EXCEPT !.cur = Idle])
             \/ Upd(i, [s EXCEPT !.cur = Idle, !.todo = {}, !.ok = "fail"])
  /\ UNCHANGED <<case, pc, tmp>>
End(i) ==
  LET s == st[i] IN
  /\ pc = 1 /\ s.ok # "wait" /\ s.end = "" /\ s.cur = Idle /\ s.todo = {} /\ (Op(i).op = "see" => s.seen)
  /\ Upd(i, [s EXCEPT !.end = s.ok])
  /\ UNCHANGED <<case, pc, files, tmp>>
AllOver == pc = 1 /\ \A i \in Procs : st[i].end # ""
Over == AllOver /\ UNCHANGED vars

Next == Start \/ (\E i \in Procs : Begin(i) \/ See(i) \/ Pick(i) \/ Write(i) \/ Replace(i) \/ AtOnce(i) \/ End(i)) \/ Over
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
TypeOK == pc \in {0, 1}
\* a store never holds anything half made
Whole == \A p \in Paths : files[p] \notin {EMPTY, PART}
\* a save which finds nothing against it succeeds, whatever the others do
PutsSucceed == \A i \in Procs : st[i].end = "fail" => Op(i).op \notin {"addl"} /\ (Op(i).op = "put" => ~Op(i).over)
\* an invocation changes only the store its command is about
Mine(i) == CASE Op(i).op = "see" -> {} [] Op(i).op = "clear" -> Flows [] Op(i).op = "move" -> {Op(i).f, Op(i).g}
             [] Op(i).op \in {"put", "del", "help"} -> {Op(i).f} [] OTHER -> {"hub"}
Apart == [][pc = 1 => \A p \in Paths : files'[p] # files[p] => \E i \in Procs : p \in Mine(i)]_vars
\* done alone, it is just done
Alone == AllOver /\ Len(case.ops) = 1 /\ st[1].end = "ok" => files = Setup(NoFiles, case.setup \o case.ops)
=============================================================================
