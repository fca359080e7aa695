----------------------------- MODULE TicatCrash -----------------------------
(***************************************************************************)
(* What is stored on disk when a command which changes it gets killed, or  *)
(* can't write.  The stores: the saved env, snapshots of the env, saved    *)
(* flows and the list of the hub.                                          *)
(*                                                                         *)
(* Files: "env", "s1", "s2", "fa", "fb", "fc", "hub".  A content is a      *)
(* sequence of strings, <<"none">>: no such file.                          *)
(* A case: [ops], sequence of                                              *)
(*   [op, f, g, c, over, hit, look]                                        *)
(*   op    put (env.save, env.snapshot.save, flow.save) f c over           *)
(*         del f (env.clear, snapshot.remove, flow.remove)                 *)
(*         move f g (flow.rename)   help f c (flow.set-help-str)           *)
(*         clear (flow.clear)       addl, dis, en, purge c (hub)           *)
(*   hit   "" | "kill" at any moment | "full": a write fails               *)
(*   look  what is stored is looked at afterwards                          *)
(***************************************************************************)
EXTENDS TicatStoreOps

CONSTANT Cases
VARIABLES case, pc, files, tmp, todo, cur, phase, ok, log
vars == <<case, pc, files, tmp, todo, cur, phase, ok, log>>

Op == case.ops[pc]

TypeOK == pc \in 1..(Len(case.ops) + 1) /\ phase \in 0..3
Init ==
  /\ case \in Cases
  /\ pc = 1
  /\ files = NoFiles
  /\ tmp = [p \in Paths |-> NONE]
  /\ todo = {} /\ cur = Idle /\ phase = 0 /\ ok = "wait"
  /\ log = <<>>

Begin ==
  /\ pc <= Len(case.ops) /\ ok = "wait"
  /\ LET p == Plan(files, Op) IN todo' = p.steps /\ ok' = (IF p.ok THEN "ok" ELSE "fail")
  /\ UNCHANGED <<case, pc, files, tmp, cur, phase, log>>
Pick ==
  /\ ok # "wait" /\ cur = Idle
  /\ \E s \in todo : cur' = s /\ todo' = todo \ {s} /\ phase' = 0
  /\ UNCHANGED <<case, pc, files, tmp, ok, log>>
\* the new content goes to a file aside, which replaces the old one at once
Write ==
  /\ cur.k = "put" /\ phase < 3
  /\ tmp' = [tmp EXCEPT ![cur.p] = IF phase = 0 THEN EMPTY ELSE IF phase = 1 THEN PART ELSE cur.c]
  /\ phase' = phase + 1
  /\ UNCHANGED <<case, pc, files, todo, cur, ok, log>>
Replace ==
  /\ cur.k = "put" /\ phase = 3
  /\ files' = [files EXCEPT ![cur.p] = tmp[cur.p]]
  /\ tmp' = [tmp EXCEPT ![cur.p] = NONE]
  /\ cur' = Idle /\ phase' = 0
  /\ UNCHANGED <<case, pc, todo, ok, log>>
AtOnce ==
  /\ cur.k \in {"del", "move"}
  /\ files' = Done1(files, cur)
  /\ cur' = Idle
  /\ UNCHANGED <<case, pc, tmp, todo, phase, ok, log>>

End(e) ==
  /\ pc' = pc + 1 /\ ok' = "wait" /\ cur' = Idle /\ todo' = {} /\ phase' = 0
  /\ log' = IF Op.look THEN Append(log, [end |-> e, files |-> files]) ELSE Append(log, [end |-> e])
  /\ UNCHANGED <<case, files, tmp>>
Finish == ok # "wait" /\ cur = Idle /\ todo = {} /\ End(ok)
Kill == pc <= Len(case.ops) /\ Op.hit = "kill" /\ ok # "wait" /\ End("killed")
NoSpace == pc <= Len(case.ops) /\ Op.hit = "full" /\ cur.k = "put" /\ phase \in {1, 2} /\ End("fail")
Over == pc > Len(case.ops) /\ UNCHANGED vars

Next == Begin \/ Pick \/ Write \/ Replace \/ AtOnce \/ Finish \/ Kill \/ NoSpace \/ Over
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* nothing half written is ever in a store
Whole == \A p \in Paths : files[p] \notin {EMPTY, PART}
\* a store changes only to what the running operation makes of it
Aimed == [][\A p \in Paths : files'[p] # files[p] =>
              ok # "wait" /\ (\/ cur.k = "put" /\ p = cur.p /\ files'[p] = cur.c
                              \/ cur.k = "del" /\ p = cur.p /\ files'[p] = NONE
                              \/ cur.k = "move" /\ p = cur.p /\ files'[p] = NONE
                              \/ cur.k = "move" /\ p = cur.q /\ files'[p] = files[cur.p])]_vars
\* what is reported done is done, what is reported failed changed nothing
Honest == [][pc' = pc + 1 /\ Len(log') > 0 /\ log'[Len(log')].end = "ok" => todo = {} /\ cur = Idle]_vars
=============================================================================
