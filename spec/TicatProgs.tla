----------------------------- MODULE TicatProgs -----------------------------
(***************************************************************************)
(* How the program of a command is started and what becomes of what it     *)
(* reads and prints.                                                       *)
(*                                                                         *)
(* A case c:                                                               *)
(*   cmds : name -> [ty    "file", "dir" (a directory's command), "flow",  *)
(*                         "fileflow" (its flow, then its program)         *)
(*                   ext   what the program's file name ends with ("": no  *)
(*                         extension), dir  the directory it is in         *)
(*                   args  the words it gets behind the session's path     *)
(*                   lines what it prints: seq of [s, t]; s = 1 standard   *)
(*                         output, 2 standard error                        *)
(*                   reads how many lines it reads of its input            *)
(*                   fail, unlog, nosess : BOOLEAN                         *)
(*                   eff   runners it sets: seq of [e, v]                  *)
(*                   tb, te, td  keys for the time it began, ended and     *)
(*                         what it took; "" for none                       *)
(*                   genv, flow  runners set for its flow, and its calls]  *)
(*   saved, genv  runners set by the saved env and in front of the         *)
(*                sequence;  main  its calls                               *)
(*   input        lines on standard input                                  *)
(* A call: [c, env, ok, set]; c = "" is the command which sets a runner    *)
(* for the rest of the session (set).                                      *)
(* A runner: extension e is run by the words v; one named "nosuch" can't   *)
(* be started.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Cases

VARIABLES cs,      \* the case
          st,      \* "run", "fail", "over"
          sess,    \* runners set in the session
          frames,  \* seq of [todo, env, own]: the calls left (the first one is running unless own = "next"), runners of the flow
          keys,    \* timer keys in the session's env
          inp,     \* lines of the input already taken
          progs, outs, errs, logs, named
vars == <<cs, st, sess, frames, keys, inp, progs, outs, errs, logs, named>>

Cat2(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]
EMPTY == [x \in {} |-> <<>>]
RECURSIVE Apply(_, _, _)
\* runners set one after the other
Apply(f, s, i) == IF i > Len(s) THEN f ELSE Apply(Cat2([x \in {s[i].e} |-> s[i].v], f), s, i + 1)
Set(s) == Apply(EMPTY, s, 1)

DEFAULTS == [x \in {"bash", "sh", "py", "go"} |->
               CASE x = "bash" -> <<"bash">> [] x = "sh" -> <<"sh">> [] x = "py" -> <<"python3">> [] x = "go" -> <<"go", "run">>]

Cmds == cs.cmds
Top == frames[Len(frames)]
Head1 == Head(Top.todo)
Cmd == Cmds[Head1.c]
HasFlow(d) == d.ty \in {"flow", "fileflow"}
HasProg(d) == d.ty # "flow"

RECURSIVE Scope(_)
\* the runners of the flows a call is in, inner ones first
Scope(i) == IF i = 0 THEN EMPTY ELSE Cat2(frames[i].env, Scope(i - 1))
Runner(ext) ==
  LET all == Cat2(Set(Head1.env), Cat2(Scope(Len(frames)), Cat2(sess, Cat2(Set(cs.saved), DEFAULTS))))
  IN IF ext \in DOMAIN all THEN all[ext] ELSE <<"bash">>

InitFor(c) ==
  /\ cs = c /\ st = "run"
  /\ sess = Set(c.genv)
  /\ frames = <<[todo |-> c.main, env |-> EMPTY, own |-> "next"]>>
  /\ keys = {} /\ inp = 0
  /\ progs = <<>> /\ outs = <<>> /\ errs = <<>> /\ logs = <<>> /\ named = <<>>
Init == \E c \in Cases : InitFor(c)

Shown(d, n) == LET l == SelectSeq(d.lines, LAMBDA x : x.s = n) IN [i \in 1..Len(l) |-> l[i].t]
Key(k) == IF k = "" THEN {} ELSE {k}
Over(f) == [frames EXCEPT ![Len(frames)] = f]
\* the call at the head of the top frame is over
Ended(d) == /\ keys' = keys \cup Key(d.te) \cup Key(d.td)
            /\ frames' = Over([Top EXCEPT !.todo = Tail(@), !.own = "next"])

Begin ==
  /\ st = "run" /\ Top.own = "next" /\ Top.todo # <<>>
  /\ IF Head1.c = ""
     THEN /\ sess' = Apply(sess, Head1.set, 1)
          /\ frames' = Over([Top EXCEPT !.todo = Tail(@)])
          /\ UNCHANGED keys
     ELSE /\ keys' = keys \cup Key(Cmd.tb)
          /\ IF HasFlow(Cmd)
             THEN frames' = Append(Over([Top EXCEPT !.own = "flow"]),
                                   [todo |-> Cmd.flow, env |-> Cat2(Set(Cmd.genv), Set(Head1.env)), own |-> "next"])
             ELSE frames' = Over([Top EXCEPT !.own = "prog"])
          /\ UNCHANGED sess
  /\ UNCHANGED <<cs, st, inp, progs, outs, errs, logs, named>>

FlowEnds ==
  /\ st = "run" /\ Top.own = "next" /\ Top.todo = <<>> /\ Len(frames) > 1
  /\ LET below == SubSeq(frames, 1, Len(frames) - 1)
         b == below[Len(below)]
         d == Cmds[Head(b.todo).c]
     IN IF HasProg(d)
        THEN /\ frames' = [below EXCEPT ![Len(below)].own = "prog"]
             /\ UNCHANGED keys
        ELSE /\ frames' = [below EXCEPT ![Len(below)] = [b EXCEPT !.todo = Tail(@), !.own = "next"]]
             /\ keys' = keys \cup Key(d.te) \cup Key(d.td)
  /\ UNCHANGED <<cs, st, sess, inp, progs, outs, errs, logs, named>>

Program ==
  /\ st = "run" /\ Top.own = "prog"
  /\ LET d == Cmd
         exe == Runner(d.ext)
         starts == exe[1] # "nosuch"
         fails == d.fail \/ ~starts
         n == IF inp + d.reads <= Len(cs.input) THEN d.reads ELSE Len(cs.input) - inp
         o == Shown(d, 1)
         e == Shown(d, 2)
         logged == ~d.unlog /\ ~d.nosess
     IN /\ IF starts
           THEN /\ progs' = Append(progs, [c |-> Head1.c, exe |-> exe, dir |-> d.dir, args |-> d.args, sess |-> ~d.nosess,
                                           in |-> SubSeq(cs.input, inp + 1, inp + n), keys |-> IF d.nosess THEN {} ELSE keys])
                /\ inp' = inp + n /\ outs' = outs \o o /\ errs' = errs \o e
           ELSE UNCHANGED <<progs, inp, outs, errs>>
        /\ logs' = IF ~logged THEN logs
                   ELSE Append(logs, [c |-> Head1.c, out |-> IF starts THEN o ELSE <<>>, err |-> IF starts THEN e ELSE <<>>])
        /\ sess' = IF starts /\ ~d.nosess /\ (~fails \/ Head1.ok) THEN Apply(sess, d.eff, 1) ELSE sess
        /\ IF fails /\ ~Head1.ok
           THEN /\ st' = "fail"
                /\ named' = IF logged THEN <<Len(logs) + 1>> ELSE <<0>>
                /\ UNCHANGED <<frames, keys>>
           ELSE /\ Ended(d) /\ UNCHANGED <<st, named>>
  /\ UNCHANGED cs

\* a failure goes up until a call tolerates it
Unwind ==
  /\ st = "fail"
  /\ IF Len(frames) = 1
     THEN /\ st' = "over"
          /\ UNCHANGED <<frames, keys, named>>
     ELSE LET below == SubSeq(frames, 1, Len(frames) - 1)
              b == below[Len(below)]
              d == Cmds[Head(b.todo).c]
          IN IF Head(b.todo).ok
             THEN /\ frames' = [below EXCEPT ![Len(below)] = [b EXCEPT !.todo = Tail(@), !.own = "next"]]
                  /\ keys' = keys \cup Key(d.te) \cup Key(d.td)
                  /\ st' = "run" /\ named' = <<>>
             ELSE /\ frames' = below
                  /\ UNCHANGED <<st, keys, named>>
  /\ UNCHANGED <<cs, sess, inp, progs, outs, errs, logs>>

Done ==
  /\ st = "run" /\ Len(frames) = 1 /\ Top.own = "next" /\ Top.todo = <<>>
  /\ st' = "over"
  /\ UNCHANGED <<cs, sess, frames, keys, inp, progs, outs, errs, logs, named>>

Next == Begin \/ FlowEnds \/ Program \/ Unwind \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

--------------------------------------------------------------------------
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Join(Tail(s))
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* every line of the input goes to one program, in order
InputOnce == Prefix(Join([i \in 1..Len(progs) |-> progs[i].in]), cs.input)
\* what is shown is what the programs printed, one program after the other
AllShown == /\ outs = Join([i \in 1..Len(progs) |-> Shown(Cmds[progs[i].c], 1)])
            /\ errs = Join([i \in 1..Len(progs) |-> Shown(Cmds[progs[i].c], 2)])
\* what is kept is what the programs with a log printed
Logged(c) == ~Cmds[c].unlog /\ ~Cmds[c].nosess
AllKept == Join([i \in 1..Len(logs) |-> logs[i].out]) = Join([i \in 1..Len(progs) |-> IF Logged(progs[i].c) THEN Shown(Cmds[progs[i].c], 1) ELSE <<>>])
\* an untolerated failure names the last log
NamesTheLast == (st = "over" /\ named # <<>>) => named[1] \in {0, Len(logs)}
\* runners of calls and flows never reach the session
SessionOnly == [][sess' # sess => (st = "run" /\ (Head1.c = "" \/ (Top.own = "prog" /\ Cmd.eff # <<>>)))]_vars
Finishes == <>(st = "over")
=============================================================================
