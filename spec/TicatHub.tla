----------------------------- MODULE TicatHub -----------------------------
(***************************************************************************)
(* The hub: the list of linked repos and directories, the managed copies   *)
(* on disk, the remote repos they come from, and the commands all that     *)
(* makes available.                                                        *)
(*                                                                         *)
(* A case is [remotes, locals, init, steps]:                               *)
(*   remotes  sequence of [addr, path, cmd]   path: of the managed copy    *)
(*   locals   sequence of [path, cmd, help]                                *)
(*   init     address every `hub.add` adds as well, or ""                  *)
(* Steps: begin, end around the operations of one invocation               *)
(*   add [addr]  addl [path]  init  update  en [s]  dis [s]  purge [s]     *)
(*   purgeall  clear                                                       *)
(* and outside of invocations                                              *)
(*   pub [addr, help, subs]  a new version of a remote repo                *)
(*   gone [addr], back [addr]  a remote repo cannot be reached, can again  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

CONSTANT Cases
VARIABLES case, pc, rows, disk, remote, live, obs
vars == <<case, pc, rows, disk, remote, live, obs>>

Cur == case.steps[pc]
HasText(s, f) == \E i \in 0..(Len(s) - Len(f)) : SubSeq(s, i + 1, i + Len(f)) = f
RemoteAddrs(c) == {c.remotes[i].addr : i \in 1..Len(c.remotes)}
RemoteOf(a) == LET i == CHOOSE i \in 1..Len(case.remotes) : case.remotes[i].addr = a IN case.remotes[i]
LocalOf(p) == LET i == CHOOSE i \in 1..Len(case.locals) : case.locals[i].path = p IN case.locals[i]
NoVer == [v |-> 0]

IsLocal(r) == r.addr = ""
Key(r) == IF IsLocal(r) THEN r.path ELSE r.addr
Reason(r) == IF r.reason = r.addr THEN "<manually-added>" ELSE r.reason
OnOff(r) == IF r.on THEN "on" ELSE "disabled"
\* enabling and disabling look at the address or the path, an exact match counts alone
Selected(rs, s) ==
  LET exact == {i \in 1..Len(rs) : Key(rs[i]) = s}
  IN IF exact # {} THEN {Min(exact)} ELSE {i \in 1..Len(rs) : HasText(Key(rs[i]), s)}
\* purging looks at everything the listing shows
Broad(r, s) ==
  s = "" \/ HasText(r.addr, s) \/ HasText(r.path, s) \/ HasText(Reason(r), s) \/ HasText(r.help, s) \/ HasText(OnOff(r), s)
  \/ (IsLocal(r) /\ HasText("local", s))
Purged(rs, s) ==
  LET exact == {i \in 1..Len(rs) : rs[i].addr = s /\ s # ""}
  IN IF exact # {} /\ ~rs[Min(exact)].on THEN {Min(exact)}
     ELSE {i \in 1..Len(rs) : ~rs[i].on /\ Broad(rs[i], s)}

RECURSIVE Pick(_, _, _)
\* the rows with index in / not in S, in order
Pick(rs, S, i) == IF i > Len(rs) THEN <<>> ELSE (IF i \in S THEN <<rs[i]>> ELSE <<>>) \o Pick(rs, S, i + 1)
In(rs, S) == Pick(rs, S, 1)
Out(rs, S) == Pick(rs, (1..Len(rs)) \ S, 1)

\* clone or pull a repo and all it lists
\* x = [ok, fin, disk, top, addrs, helps]
RECURSIVE Expand(_, _), ExpandSubs(_, _, _)
ExpandSubs(x, subs, i) ==
  IF ~x.ok \/ i > Len(subs) THEN x
  ELSE LET e == Expand([x EXCEPT !.top = "", !.addrs = <<>>, !.helps = <<>>], subs[i].addr)
           h == IF subs[i].help = "" THEN e.top ELSE subs[i].help
       IN ExpandSubs([e EXCEPT !.top = x.top, !.addrs = x.addrs \o e.addrs,
                               !.helps = [x.helps EXCEPT ![i] = h] \o e.helps], subs, i + 1)
Expand(x, a) ==
  IF a \in x.fin THEN [x EXCEPT !.top = "", !.addrs = <<>>, !.helps = <<>>]
  ELSE IF a \notin DOMAIN remote \/ ~remote[a].up THEN [x EXCEPT !.ok = FALSE]
  ELSE LET r == remote[a]
           y == [x EXCEPT !.fin = @ \cup {a}, !.disk = [@ EXCEPT ![a] = r.ver], !.top = r.help,
                          !.addrs = [i \in 1..Len(r.subs) |-> r.subs[i].addr],
                          !.helps = [i \in 1..Len(r.subs) |-> r.subs[i].help]]
       IN ExpandSubs(y, r.subs, 1)

Off(rs) == {rs[i].addr : i \in {j \in 1..Len(rs) : ~rs[j].on}}
\* new rows: once each, and only what is not there yet
RECURSIVE AddNew(_, _, _, _, _)
AddNew(rs, addrs, helps, reason, i) ==
  IF i > Len(addrs) THEN rs
  ELSE AddNew(IF \E j \in 1..Len(rs) : rs[j].addr = addrs[i] THEN rs
              ELSE Append(rs, [addr |-> addrs[i], path |-> RemoteOf(addrs[i]).path, reason |-> reason, help |-> helps[i], on |-> TRUE]),
              addrs, helps, reason, i + 1)

\* [ok, rows, disk]
AddOne(rs, dk, a) ==
  LET rs1 == [i \in 1..Len(rs) |-> IF rs[i].addr = a THEN [rs[i] EXCEPT !.on = TRUE] ELSE rs[i]]
      e == Expand([ok |-> TRUE, fin |-> Off(rs1), disk |-> dk, top |-> "", addrs |-> <<>>, helps |-> <<>>], a)
  IN IF ~e.ok THEN [ok |-> FALSE, rows |-> rs, disk |-> e.disk]
     ELSE [ok |-> TRUE, disk |-> e.disk, rows |-> AddNew(rs1, <<a>> \o e.addrs, <<e.top>> \o e.helps, a, 1)]

AddBoth(a) ==
  LET x == AddOne(rows, disk, a)
  IN IF ~x.ok \/ case.init = "" THEN x
     ELSE LET y == AddOne(x.rows, x.disk, case.init) IN y

RECURSIVE UpdateFrom(_, _, _, _)
\* every enabled repo in order; what one of them lists newly comes in
UpdateFrom(x, rs, i, old) ==
  IF ~x.ok \/ i > Len(old) THEN [ok |-> x.ok, rows |-> rs, disk |-> x.disk]
  ELSE IF IsLocal(old[i]) THEN UpdateFrom(x, rs, i + 1, old)
  ELSE LET e == Expand([x EXCEPT !.top = "", !.addrs = <<>>, !.helps = <<>>], old[i].addr)
       IN UpdateFrom(e, IF e.ok THEN AddNew(rs, e.addrs, e.helps, old[i].addr, 1) ELSE rs, i + 1, old)
Update ==
  LET x == UpdateFrom([ok |-> TRUE, fin |-> Off(rows), disk |-> disk, top |-> "", addrs |-> <<>>, helps |-> <<>>], rows, 1, rows)
  IN IF x.ok THEN x ELSE [x EXCEPT !.rows = rows]

SetOn(rs, S, b) == [i \in 1..Len(rs) |-> IF i \in S THEN [rs[i] EXCEPT !.on = b] ELSE rs[i]]
\* the matched ones move behind the others
Switch(s, b) ==
  LET S == Selected(rows, s)
      rs == SetOn(rows, S, b)
  IN IF S = {} THEN [ok |-> FALSE, rows |-> rows, disk |-> disk]
     ELSE [ok |-> TRUE, rows |-> Out(rs, S) \o In(rs, S), disk |-> disk]
DropDisk(S) == [a \in DOMAIN disk |-> IF \E i \in S : rows[i].addr = a THEN 0 ELSE disk[a]]
Purge(s) ==
  LET S == Purged(rows, s)
  IN IF S = {} THEN [ok |-> FALSE, rows |-> rows, disk |-> disk]
     ELSE [ok |-> TRUE, rows |-> Out(rows, S), disk |-> DropDisk(S)]
AddLocal(p) ==
  LET S == {i \in 1..Len(rows) : rows[i].path = p}
  IN [ok |-> TRUE, disk |-> disk,
      rows |-> IF S # {} THEN SetOn(rows, {Min(S)}, TRUE)
               ELSE Append(rows, [addr |-> "", path |-> p, reason |-> "<local>", help |-> LocalOf(p).help, on |-> TRUE])]

Effect(s) ==
  CASE s.op = "add" -> AddBoth(s.addr)
    [] s.op = "init" -> IF case.init = "" THEN [ok |-> FALSE, rows |-> rows, disk |-> disk] ELSE AddOne(rows, disk, case.init)
    [] s.op = "addl" -> AddLocal(s.path)
    [] s.op = "update" -> Update
    [] s.op = "en" -> Switch(s.s, TRUE)
    [] s.op = "dis" -> Switch(s.s, FALSE)
    [] s.op = "purge" -> Purge(s.s)
    [] s.op = "purgeall" -> Purge("")
    [] s.op = "clear" -> [ok |-> TRUE, rows |-> <<>>, disk |-> DropDisk(1..Len(rows))]

\* which command comes from where: the first enabled row which has it
Provides(r, c) == IF IsLocal(r) THEN c \in {LocalOf(r.path).cmd, "shx"} ELSE disk[r.addr] > 0 /\ c \in {RemoteOf(r.addr).cmd, "shx"}
CmdNames(c) == {c.remotes[i].cmd : i \in 1..Len(c.remotes)} \cup {c.locals[i].cmd : i \in 1..Len(c.locals)} \cup {"shx"}
Visible(c) ==
  LET S == {i \in 1..Len(rows) : rows[i].on /\ Provides(rows[i], c)}
  IN IF S = {} THEN "" ELSE LET r == rows[Min(S)] IN Key(r) \o " " \o ToString(IF IsLocal(r) THEN 1 ELSE disk[r.addr])
Present == {a \in DOMAIN disk : disk[a] > 0}
RowsNow(rs) == [i \in 1..Len(rs) |-> <<rs[i].addr, rs[i].reason, rs[i].path, rs[i].help, OnOff(rs[i])>>]

InitFor(c) ==
  /\ case = c /\ pc = 1 /\ rows = <<>> /\ live = FALSE /\ obs = <<>>
  /\ disk = [a \in RemoteAddrs(c) |-> 0]
  /\ remote = [a \in RemoteAddrs(c) |-> [ver |-> 1, help |-> "", subs |-> <<>>, up |-> TRUE]]
Init == \E c \in Cases : InitFor(c)

Next ==
  /\ pc <= Len(case.steps)
  /\ pc' = pc + 1 /\ UNCHANGED case
  /\ CASE Cur.op = "begin" -> live' = TRUE /\ UNCHANGED <<rows, disk, remote, obs>>
       [] Cur.op = "end" ->
            /\ live' = FALSE
            /\ obs' = Append(obs, [rc |-> IF live THEN 0 ELSE 255, rows |-> RowsNow(rows), disk |-> SetToSeq(Present),
                                   cmds |-> [c \in CmdNames(case) |-> Visible(c)]])
            /\ UNCHANGED <<rows, disk, remote>>
       [] Cur.op = "pub" ->
            remote' = [remote EXCEPT ![Cur.addr] = [ver |-> @.ver + 1, help |-> Cur.help, subs |-> Cur.subs, up |-> @.up]]
            /\ UNCHANGED <<rows, disk, live, obs>>
       [] Cur.op \in {"gone", "back"} ->
            remote' = [remote EXCEPT ![Cur.addr].up = (Cur.op = "back")] /\ UNCHANGED <<rows, disk, live, obs>>
       [] OTHER ->
            IF live
            THEN LET x == Effect(Cur) IN rows' = x.rows /\ disk' = x.disk /\ live' = x.ok /\ UNCHANGED <<remote, obs>>
            ELSE UNCHANGED <<rows, disk, live, remote, obs>>
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
AllDone == pc > Len(case.steps)
\* nothing is linked twice
NoDoubles == \A i, j \in 1..Len(rows) : Key(rows[i]) = Key(rows[j]) => i = j
\* a repo that is linked and enabled is there
OnIsThere == \A i \in 1..Len(rows) : (rows[i].on /\ ~IsLocal(rows[i])) => disk[rows[i].addr] > 0
\* nothing comes from a disabled or unlinked source
OnlyFromEnabled == \A c \in CmdNames(case) : Visible(c) # "" =>
  \E i \in 1..Len(rows) : rows[i].on /\ HasText(Visible(c), Key(rows[i]) \o " ")
Op(o) == pc <= Len(case.steps) /\ Cur.op = o /\ live
Keys(rs) == {Key(rs[i]) : i \in 1..Len(rs)}
RowOf(rs, k) == rs[CHOOSE i \in 1..Len(rs) : Key(rs[i]) = k]
\* links go only by purging what is disabled, or by clearing
LinksGoOnlyByPurge == [][ \A k \in Keys(rows) \ Keys(rows') : (Cur.op \in {"purge", "purgeall"} /\ ~RowOf(rows, k).on) \/ Cur.op = "clear" ]_vars
\* a managed copy is deleted only with its link
CopiesGoWithLinks == [][ \A a \in DOMAIN disk : (disk[a] > 0 /\ disk'[a] = 0) => a \in Keys(rows) /\ a \notin Keys(rows') ]_vars
\* disabling and enabling touch nothing else; adding never disables; updating never switches
SwitchOnly == [][ (Op("en") \/ Op("dis")) => Keys(rows) = Keys(rows') /\ disk' = disk
                  /\ \A k \in Keys(rows) : RowOf(rows', k) # RowOf(rows, k) => HasText(k, Cur.s) ]_vars
AddKeeps == [][ (Op("add") \/ Op("init") \/ Op("update") \/ Op("addl")) =>
                  \A k \in Keys(rows) : k \in Keys(rows') /\ (RowOf(rows, k).on => RowOf(rows', k).on)
                     /\ (Op("update") => RowOf(rows, k) = RowOf(rows', k)) ]_vars
DisabledStaysAsItIs == [][ \A k \in Keys(rows) : (~RowOf(rows, k).on /\ k \in Keys(rows') /\ ~RowOf(rows', k).on /\ k \in DOMAIN disk)
                              => disk'[k] = disk[k] ]_vars
FailedKeepsLinks == [][ (live /\ ~live' /\ Cur.op \notin {"add", "end"}) => rows' = rows ]_vars
=============================================================================
