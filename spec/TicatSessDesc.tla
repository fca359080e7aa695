--------------------------- MODULE TicatSessDesc ----------------------------
(***************************************************************************)
(* Describing a session which was run: `sessions.last.desc`,               *)
(* `sessions.error.desc`, `sessions.done.desc`, `sessions.desc id`, each   *)
(* with .more and .full.                                                   *)
(*                                                                         *)
(* A description is made of the record of the session (TicatExec's `rec`)  *)
(* and of the definitions of its commands.  It lists the commands of the   *)
(* sequence with what became of each: OK, ERR, failed (it did not get to   *)
(* an end), unrun (the first of a flow which was not reached).  The flow   *)
(* of a command which failed is always shown, down to what made it fail;   *)
(* that of others as deep, and as trivial, as asked for.  A command counts *)
(* as failed if something in its flow did, tolerated or not.               *)
(* Env: what a failed command started with, in the full description what   *)
(* each started with; what each made of it (more, full).                   *)
(*                                                                         *)
(* A case: one of TicatDesc, with                                          *)
(*   how   "less" | "more" | "full"                                        *)
(*   which "last" | "error" | "done" | "id"                                *)
(*   cut   0, or how much of the record there was when ticat was killed    *)
(***************************************************************************)
EXTENDS TicatDesc

--------------------------------------------------------------------------
(* The record as a tree: nodes are [c, r, has, kids, s, t, ended]          *)

\* what becomes known of a flow from what is in it
OfKids(r, kids) ==
  LET bad == SelectSeq(kids, LAMBDA k : k.r # "OK")
  IN IF r = "ERR" \/ bad = <<>> THEN r ELSE bad[1].r

RECURSIVE Nodes(_, _)
\* from position i: [nodes, i (behind them)]
Nodes(r, i) ==
  IF i > Len(r) \/ r[i].e # "start" THEN [nodes |-> <<>>, i |-> i]
  ELSE LET hasSub == i < Len(r) /\ r[i + 1].e = "sub"
           sub == IF hasSub THEN Nodes(r, i + 2) ELSE [nodes |-> <<>>, i |-> i + 1]
           closed == hasSub /\ sub.i <= Len(r) /\ r[sub.i].e = "subend"
           j == IF closed THEN sub.i + 1 ELSE sub.i
           ended == (closed \/ ~hasSub) /\ j <= Len(r) /\ r[j].e = "end"
           own == IF ended THEN r[j].r ELSE "failed"
           of == IF ~hasSub THEN "OK" ELSE OfKids(IF closed THEN r[sub.i].r ELSE "failed", sub.nodes)
           node == [c |-> r[i].c, r |-> IF own = "OK" THEN of ELSE own, has |-> hasSub, kids |-> sub.nodes,
                    s |-> r[i].s, t |-> IF ended THEN r[j].s ELSE NOENV, ended |-> ended]
           more == Nodes(r, IF ended THEN j + 1 ELSE j)
       IN [nodes |-> <<node>> \o more.nodes, i |-> more.i]
Tree(r) == Nodes(r, 1).nodes

--------------------------------------------------------------------------

Bindings(s) == {<<k, s[k]>> : k \in {x \in DOMAIN s : s[x] # ABSENT}}
\* what a command made of the env: <<key, before, after>>
Changed(s, t) == {<<k, s[k], t[k]>> : k \in {x \in KEYS : s[x] # t[x]}}
Full == C.how = "full"
UnRun(c) == [c |-> c, r |-> "unrun", has |-> FALSE, kids |-> <<>>, s |-> NOENV, t |-> NOENV, ended |-> FALSE]
\* an end of which only the result is recorded
Blank(t) == \A k \in DOMAIN t : t[k] = ABSENT

\* the flow of a command as it was when it ran: with the env recorded
FlowThen(call, node, depth) ==
  LET e == <<Layer("session", [k \in {x \in DOMAIN node.s : node.s[x] # ABSENT} |-> node.s[k]], {})>>
      argv == ArgvOf(ApplyArgs(Push(e, "cmd"), call.c, call.args, 1), call.c, depth)
  IN RenderFlow(Cmds[call.c], e, argv).calls

RECURSIVE SD(_, _, _, _, _, _, _)
\* calls from the n-th on, recorded as nodes; [lines, ok]
SD(calls, n, nodes, lev, triv, d, failing) ==
  IF n > Len(calls) THEN [lines |-> <<>>, ok |-> TRUE]
  ELSE LET c == calls[n].c
           def == Cmds[c]
           node == IF n <= Len(nodes) THEN nodes[n] ELSE UnRun(c)
           failed == node.r # "OK"
           hidden == ~(failing \/ failed \/ (triv > 0 /\ lev > 0))
           byTriv == ~failed /\ HasFlow(def) /\ ~Pack(c) /\ triv <= Triv(c)
           fold == byTriv \/ (~failed /\ lev <= 1)
           open == HasFlow(def) /\ ~Pack(c) /\ ~fold /\ node.r # "unrun" /\ node.has
           sub == IF ~open THEN [lines |-> <<>>, ok |-> TRUE]
                  ELSE SD(FlowThen(calls[n], node, d + 1), 1, node.kids, IF failed THEN lev ELSE lev - 1, triv - Triv(c), d + 1, failed \/ failing)
           line == [d |-> d, c |-> c, r |-> node.r, triv |-> byTriv /\ Triv(c) > 0,
                    start |-> IF node.r # "unrun" /\ (Full \/ node.r = "ERR") THEN Bindings(node.s) ELSE {},
                    \* what was left when something in its flow failed is not told
                    mod |-> IF ~sub.ok \/ ~node.ended THEN {}
                            ELSE IF C.how # "less" \/ node.r = "ERR" THEN (IF Blank(node.t) /\ ~Blank(node.s) THEN {<<"?">>} ELSE Changed(node.s, node.t))
                            ELSE {}]
           here == IF hidden THEN <<>> ELSE <<line>> \o sub.lines
           rest == IF node.r = "unrun" THEN [lines |-> <<>>, ok |-> FALSE] ELSE SD(calls, n + 1, nodes, lev, triv, d, failing)
       IN [lines |-> here \o rest.lines, ok |-> ~failed /\ sub.ok /\ rest.ok]

\* what was recorded before the session was killed
Kept == IF C.cut = 0 \/ C.cut >= Len(rec) THEN rec ELSE SubSeq(rec, 1, C.cut)
SessDesc(r) ==
  SD(C.main, 1, Tree(r), IF Only(C.main) /\ C.depth = 1 THEN 2 ELSE C.depth, IF Only(C.main) /\ C.unfold = 1 THEN 2 ELSE C.unfold, 0, FALSE)

\* a session refused by the checks is told only if asked for by its id, it is not "the last one"
Told == (IF C.which = "id" THEN rec # <<>> \/ rc = 255 ELSE rec # <<>> /\ rec[1].e = "start") /\ (C.which = "error" => rc # 0) /\ (C.which = "done" => rc = 0)
\* a flow which turned out to be no flow while running cannot be shown
Garbled == \E i \in 1..Len(rec) - 1 : rec[i].e = "sub" /\ rec[i + 1].e = "subend"
SessObs ==
  IF ~Told THEN [told |-> FALSE]
  ELSE IF Garbled THEN [garbled |-> TRUE]
  ELSE LET x == SessDesc(Kept) IN [told |-> TRUE, lines |-> x.lines, closed |-> x.ok]

--------------------------------------------------------------------------
(* What makes descriptions useful, checked on all runs                     *)

RECURSIVE Failures(_)
Failures(nodes) == FoldSeq(LAMBDA x, acc : acc \o (IF x.r = "OK" THEN <<>> ELSE <<x.c>> \o Failures(x.kids)), <<>>, nodes)
\* everything which failed is shown, however deep or trivial it is
CauseIsShown ==
  phase = "done" /\ Told /\ ~Garbled /\ (\A c \in DOMAIN Cmds : ~Pack(c)) =>
    LET ls == SelectSeq(SessDesc(Kept).lines, LAMBDA x : x.r \in {"ERR", "failed"})
    IN [i \in 1..Len(ls) |-> ls[i].c] = Failures(Tree(Kept))
\* a session is shown as complete exactly when nothing in it failed
CompleteWhenOk ==
  phase = "done" /\ Told /\ ~Garbled /\ Kept = rec =>
    (SessDesc(Kept).ok = (rc = 0 /\ \A i \in 1..Len(rec) : rec[i].r # "ERR"))
\* fully unfolded, what is shown is what was started, in its order
ShowsAll ==
  phase = "done" /\ Told /\ ~Garbled /\ C.depth >= 9 /\ C.unfold >= 9 /\ Kept = rec /\ (\A c \in DOMAIN Cmds : ~Pack(c)) =>
    LET ls == SelectSeq(SessDesc(Kept).lines, LAMBDA x : x.r # "unrun")
    IN /\ [i \in 1..Len(ls) |-> ls[i].c] = Started
       /\ [i \in 1..Len(ls) |-> ls[i].d] = DepthsOf(rec, 1, 0)
\* killed, it is never shown as complete, and nothing is shown which was not started
KilledIsNotComplete ==
  phase = "done" /\ Told /\ ~Garbled /\ Kept # rec =>
    LET x == SessDesc(Kept)
        ls == SelectSeq(x.lines, LAMBDA l : l.r # "unrun")
    IN /\ Len(ls) <= Len(SelectSeq(Kept, LAMBDA e : e.e = "start"))
       /\ x.ok => \A i \in 1..Len(Kept) : Kept[i].e = "end" => Kept[i].r = "OK"
=============================================================================
