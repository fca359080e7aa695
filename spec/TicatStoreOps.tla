--------------------------- MODULE TicatStoreOps ---------------------------
(***************************************************************************)
(* What the commands changing a store do to its files: the saved env,      *)
(* snapshots of the env, saved flows and the list of the hub.              *)
(*                                                                         *)
(* fs: Paths -> content, a sequence of strings (NONE: no such file).       *)
(* An operation: [op, f, g, c, over]                                       *)
(*   put (env.save, env.snapshot.save, flow.save) f c over                 *)
(*   del f (env.clear, snapshot.remove, flow.remove)                       *)
(*   move f g (flow.rename)   help f c (flow.set-help-str)                 *)
(*   clear (flow.clear)       addl, dis, en, purge c (hub)                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

NONE == <<"none">>
EMPTY == <<"">>
PART == <<"part">>
Paths == {"env", "s1", "s2", "fa", "fb", "fc", "hub"}
Flows == {"fa", "fb", "fc"}
Snaps == {"s1", "s2"}
NoFiles == [p \in Paths |-> IF p = "hub" THEN <<>> ELSE NONE]

Put(p, c) == [k |-> "put", p |-> p, q |-> p, c |-> c]
Del(p) == [k |-> "del", p |-> p, q |-> p, c |-> NONE]
Move(p, q) == [k |-> "move", p |-> p, q |-> q, c |-> NONE]
Idle == [k |-> "", p |-> "", q |-> "", c |-> NONE]

\* rows of the hub: "d1+" linked and enabled, "d1-" disabled
Off(d) == IF d = "d1" THEN "d1-" ELSE "d2-"
On(d) == IF d = "d1" THEN "d1+" ELSE "d2+"
Row(rows, d) == {i \in DOMAIN rows : rows[i] \in {On(d), Off(d)}}
Others(rows, d) == SelectSeq(rows, LAMBDA r : r \notin {On(d), Off(d)})
HubPut(ok, rows) == [ok |-> ok, steps |-> IF ok THEN {Put("hub", rows)} ELSE {}]
HubPlan(rows, o) ==
  LET d == o.c[1] IN
  CASE o.op = "addl" -> HubPut(TRUE, IF Row(rows, d) = {} THEN Append(rows, On(d))
                                     ELSE [rows EXCEPT ![Min(Row(rows, d))] = On(d)])
    [] o.op = "dis" -> HubPut(Row(rows, d) # {}, Append(Others(rows, d), Off(d)))
    [] o.op = "en" -> HubPut(Row(rows, d) # {}, Append(Others(rows, d), On(d)))
    [] o.op = "purge" -> HubPut(\E i \in Row(rows, d) : rows[i] = Off(d), Others(rows, d))

\* what an operation has to do to the files, in any order
Plan(fs, o) ==
  LET there(p) == fs[p] # NONE
      no == [ok |-> FALSE, steps |-> {}]
      yes(s) == [ok |-> TRUE, steps |-> s]
  IN CASE o.op = "put" -> IF there(o.f) /\ ~o.over THEN no ELSE yes({Put(o.f, o.c)})
       [] o.op = "del" -> IF there(o.f) THEN yes({Del(o.f)}) ELSE [ok |-> o.f \notin Flows, steps |-> {}]
       [] o.op = "move" -> IF ~there(o.f) THEN no ELSE IF o.f = o.g THEN yes({}) ELSE yes({Move(o.f, o.g)})
       [] o.op = "help" -> IF ~there(o.f) THEN no ELSE yes({Put(o.f, <<fs[o.f][1], o.c[1]>>)})
       [] o.op = "clear" -> yes({Del(f) : f \in {x \in Flows : there(x)}})
       [] o.op = "see" -> yes({})
       [] OTHER -> HubPlan(fs["hub"], o)

\* what is done at once
Done1(fs, s) == CASE s.k = "put" -> [fs EXCEPT ![s.p] = s.c]
                  [] s.k = "del" -> [fs EXCEPT ![s.p] = NONE]
                  [] s.k = "move" -> [fs EXCEPT ![s.q] = fs[s.p], ![s.p] = NONE]
RECURSIVE DoneAll(_, _)
DoneAll(fs, steps) == IF steps = {} THEN fs ELSE LET s == CHOOSE x \in steps : TRUE IN DoneAll(Done1(fs, s), steps \ {s})
=============================================================================
