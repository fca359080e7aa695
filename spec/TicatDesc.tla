----------------------------- MODULE TicatDesc ------------------------------
(***************************************************************************)
(* Describing a sequence instead of running it: `<sequence> : desc` (or -, *)
(* --, ---), `desc.more` (+, ++, +++), `desc.full`, `desc.flow`...,        *)
(* `desc.depends` and `desc.env-ops-check`.                                *)
(*                                                                         *)
(* A description is made without running anything.  It lists the commands  *)
(* which would be started, in this order and with this nesting, and the    *)
(* values their arguments would get as far as those do not depend on what  *)
(* programs do; what would keep the sequence from being run - OS commands  *)
(* which are missing, env keys read by a command but not provided - is     *)
(* reported.  The flow of a command is shown once per sequence it is used  *)
(* in; to what depth, and whether flows of trivial commands are shown, is  *)
(* chosen by arguments.                                                    *)
(*                                                                         *)
(* A case: one of TicatExec, with                                          *)
(*   how    "skel" | "more" | "dep" | "env"                                *)
(*   depth  how many levels are shown                                      *)
(*   unfold how trivial a command may be to get its flow shown             *)
(* and commands have, optionally, triv (a number), hid (a quiet command:   *)
(* it is not shown) and pack (its flow never is).                          *)
(*                                                                         *)
(* That the description is right is stated against the execution: see      *)
(* TellsTheTruth.                                                          *)
(***************************************************************************)
EXTENDS TicatExec

Triv(c) == IF "triv" \in DOMAIN Cmds[c] THEN Cmds[c].triv ELSE 0
Hid(c) == "hid" \in DOMAIN Cmds[c] /\ Cmds[c].hid
Pack(c) == HasFlow(Cmds[c]) /\ "pack" \in DOMAIN Cmds[c] /\ Cmds[c].pack

\* the declared reads of a command which nothing provides
RECURSIVE Unprovided(_, _, _, _)
Unprovided(ops, n, e, st) ==
  IF n > Len(ops) THEN st
  ELSE LET k == ops[n].k
           now == (IF k \in DOMAIN st.seen THEN st.seen[k] ELSE {}) \cup {ops[n].op}
           bad == ops[n].op = "read" /\ "write" \notin now /\ "may-write" \notin now /\ Get(e, k) = ""
       IN Unprovided(ops, n + 1, e, [st EXCEPT !.seen = (k :> now) @@ @, !.keys = IF bad THEN @ \cup {k} ELSE @])

Given(c, argv) == SelectSeq([i \in 1..Len(Cmds[c].args) |-> <<Cmds[c].args[i].n, argv[Cmds[c].args[i].n].v, argv[Cmds[c].args[i].n].given>>],
                            LAMBDA x : x[3])
FirstTwo(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2]>>]

\* lev: how deep the description goes from here; triv: how trivial is still shown;
\* show: whether this level is
\* st: lines (what is shown), all (everything), seen (env ops met), reads (set of <<key, command>>),
\*     missing (commands which need an OS command that does not exist), broken, env
RECURSIVE DescSeq(_, _, _, _, _, _, _, _, _)
DescSeq(calls, n, e, depth, lev, triv, show, met, st) ==
  IF n > Len(calls) \/ st.broken THEN st
  ELSE LET c == calls[n].c
           d == Cmds[c]
           en == EnterCall(e, calls[n], depth)
           un == Unprovided(d.ops, 1, en.env, [seen |-> st.seen, keys |-> {}])
           fl == RenderFlow(d, en.env, en.argv)
           text == <<fl.genv, fl.calls>>
           byTriv == HasFlow(d) /\ ~Pack(c) /\ triv <= Triv(c)
           fold == ~HasFlow(d) \/ Hid(c) \/ Pack(c) \/ lev <= 1 \/ byTriv
           dup == ~fold /\ text \in met
           line == [d |-> depth - 1, c |-> c, a |-> FirstTwo(Given(c, en.argv)), dup |-> dup, triv |-> byTriv /\ Triv(c) > 0]
           st1 == [st EXCEPT !.lines = IF show /\ ~Hid(c) THEN Append(@, line) ELSE @,
                             !.all = Append(@, [d |-> depth - 1, c |-> c, a |-> ArgList(c, en.argv)]),
                             !.seen = un.seen,
                             !.reads = @ \cup {<<k, c>> : k \in un.keys},
                             !.missing = IF d.dep THEN @ ELSE @ \cup {c},
                             !.env = en.env]
           st2 == IF ~HasFlow(d) THEN st1
                  ELSE IF ~fl.ok \/ ~fl.parses THEN [st1 EXCEPT !.broken = TRUE, !.odd = fl.ok]
                  ELSE DescSeq(fl.calls, 1, EnterFlow(en.env, fl.genv), depth + 1, lev - 1, triv - Triv(c), show /\ ~fold /\ ~dup, {}, st1)
           after == IF st2.broken THEN e ELSE SubSeq(st2.env, 1, Len(e))
       IN DescSeq(calls, n + 1, after, depth, lev, triv, show, IF fold THEN met ELSE met \cup {text}, [st2 EXCEPT !.env = after])

\* the only command of a sequence does not get folded away because it is trivial
Only(calls) == Len(calls) = 1 /\ Triv(calls[1].c) > 0
Desc(calls, e) ==
  DescSeq(calls, 1, e, 1,
          IF Only(calls) /\ C.depth = 1 THEN 2 ELSE C.depth, IF Only(calls) /\ C.unfold = 1 THEN 2 ELSE C.unfold, TRUE, {},
          [lines |-> <<>>, all |-> <<>>, seen |-> EmptyKV, reads |-> {}, missing |-> {}, broken |-> FALSE, odd |-> FALSE, env |-> e])

Keys(d) == {r[1] : r \in d.reads}
Fatals(d) == Cardinality(Keys(d)) + (IF d.missing = {} THEN 0 ELSE 1)

\* nothing is started, kept or changed by a description
Quiet == [ran |-> 0, kept |-> TRUE]
\* the defaults of the arguments of the commands shown
Defs(d) == [i \in 1..Len(d.lines) |-> [j \in 1..Len(Cmds[d.lines[i].c].args) |-> <<Cmds[d.lines[i].c].args[j].n, Cmds[d.lines[i].c].args[j].def>>]]
Obs ==
  LET ok == \A i \in 1..Len(C.main) : CallParses(C.main[i])
  IN IF ~ok THEN [q |-> Quiet, refused |-> TRUE]
     ELSE LET d == Desc(C.main, ApplyKVs(BaseEnv(C), 2, C.genv, 1))
          \* what a flow which cannot be parsed depends on is anyone's guess
          IN IF d.odd /\ C.how = "dep" THEN [q |-> Quiet, free |-> TRUE]
             ELSE IF d.broken THEN [q |-> Quiet, refused |-> TRUE]
             ELSE CASE C.how = "skel" -> [q |-> Quiet, refused |-> FALSE, lines |-> d.lines, fatals |-> Fatals(d)]
                    [] C.how = "more" -> [q |-> Quiet, refused |-> FALSE, lines |-> d.lines, defs |-> Defs(d), reads |-> d.reads, missing |-> d.missing]
                    [] C.how = "flow" -> [q |-> Quiet, refused |-> FALSE, lines |-> d.lines, defs |-> Defs(d), fatals |-> Fatals(d)]
                    [] C.how = "dep" -> [q |-> Quiet, refused |-> FALSE, missing |-> d.missing]
                    [] C.how = "env" -> [q |-> Quiet, refused |-> FALSE, reads |-> d.reads]

--------------------------------------------------------------------------
(* The description and the execution, on programs which neither fail nor   *)
(* change the env                                                          *)

IsStart(x) == x.e = "start"
Started == LET q == SelectSeq(rec, IsStart) IN [i \in 1..Len(q) |-> q[i].c]
Tame == \A c \in DOMAIN Cmds : ~Cmds[c].fail /\ Cmds[c].eff = <<>>

\* depth of the starts in the record
RECURSIVE DepthsOf(_, _, _)
DepthsOf(r, n, at) ==
  IF n > Len(r) THEN <<>>
  ELSE IF r[n].e = "start" THEN <<at>> \o DepthsOf(r, n + 1, at)
  ELSE DepthsOf(r, n + 1, at + (IF r[n].e = "sub" THEN 1 ELSE IF r[n].e = "subend" THEN -1 ELSE 0))

TellsTheTruth ==
  phase = "done" /\ Tame =>
    LET ok == \A i \in 1..Len(C.main) : CallParses(C.main[i])
        d == Desc(C.main, ApplyKVs(BaseEnv(C), 2, C.genv, 1))
        shown == [i \in 1..Len(d.all) |-> d.all[i].c]
        unfolded == ~(\E c \in DOMAIN Cmds : Hid(c) \/ Pack(c)) /\ C.depth >= 9 /\ C.unfold >= 9
    IN IF ~ok THEN rc = 1 ELSE
       /\ (rc = 0) = (~d.broken /\ Fatals(d) = 0)
       /\ rc = 0 =>
            /\ Started = shown
            /\ DepthsOf(rec, 1, 0) = [i \in 1..Len(d.all) |-> d.all[i].d]
            \* what a program gets is what is said, and nothing else is run
            /\ {<<runs[i].c, runs[i].a>> : i \in 1..Len(runs)} = {<<d.all[i].c, d.all[i].a>> : i \in {j \in 1..Len(d.all) : HasFile(Cmds[d.all[j].c])}}
            \* what is shown is a part of it: all of it but for what is shown already
            /\ \A i \in 1..Len(d.lines) : \E j \in 1..Len(d.all) : d.all[j].c = d.lines[i].c /\ d.all[j].d = d.lines[i].d
            /\ (unfolded /\ \A i \in 1..Len(d.lines) : ~d.lines[i].dup) => [i \in 1..Len(d.lines) |-> d.lines[i].c] = shown
=============================================================================
