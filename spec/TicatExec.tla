----------------------------- MODULE TicatExec ------------------------------
(***************************************************************************)
(* Execution of one command sequence by ticat.                             *)
(*                                                                         *)
(* A case (an element of Cases) is a small installation plus one           *)
(* invocation:                                                             *)
(*   cmds : name -> command                                                *)
(*     ty    "file" | "flow" | "fileflow" | "builtin" (nothing but its     *)
(*           mappings to the env)                                          *)
(*     args  sequence of [n, def]           declared arguments             *)
(*     a2e   sequence of [k, a]             argument -> env key mappings   *)
(*     v2e   sequence of [k, v]             env keys the command sets      *)
(*     ops   sequence of [k, op]            declared env reads and writes  *)
(*     dep   BOOLEAN                        its OS dependencies exist      *)
(*     eff   sequence of [k, v, del]        env changes the program makes  *)
(*     fail  BOOLEAN                        the program exits non-zero     *)
(*     quiet BOOLEAN                        quiet-error                    *)
(*     genv  sequence of [k, v, del]        {k=v} leading the flow         *)
(*     flow  sequence of calls                                             *)
(*     auto  (when present) arguments the command takes over from the      *)
(*           commands of its flow, see "Automatic arguments"               *)
(*   genv, main : the invocation's leading {k=v} and its calls             *)
(*   base : env values saved earlier                                       *)
(* A call is [c, args: seq of [a, v], env: seq of [k, v, del], ok, rep].   *)
(* Values are strings; [[key]] in them is a template, as it is in the name *)
(* of the command of a call in a flow.  A call with a key                  *)
(* rep stands for one call per element of that key's (list) value, put in  *)
(* the place of [[*key*]] in its argument values.                          *)
(*                                                                         *)
(* The visible behaviour is `runs` - what every executed program saw - the *)
(* session record `rec`, and the exit status `rc`.                         *)
(***************************************************************************)
EXTENDS TicatEnv, SequencesExt

CONSTANTS Cases, KEYS   \* the set of cases, the env keys observed

VARIABLES
  prog,    \* the case being executed
  phase,   \* "parse" "check" "deps" "run" "unwind" "done"
  env,     \* layer stack
  frames,  \* stack of sequences being executed
  cause,   \* while unwinding: "panic" or "false"
  pend,    \* record entries a panic will leave behind only if it gets caught
  runs,    \* programs executed so far
  rec,     \* the session record
  rc       \* exit status, -1 while running

vars == <<prog, phase, env, frames, cause, pend, runs, rec, rc>>

C == prog
Cmds == C.cmds
Known(c) == c \in DOMAIN Cmds
HasFlow(d) == d.ty \in {"flow", "fileflow"}
HasFile(d) == d.ty \in {"file", "fileflow"}
ArgKey(c, a) == c \o "." \o a

\* argument names in alphabetic order
ARGORDER == <<"a1", "m", "u", "v", "x", "y">>
Before(x, y) == (CHOOSE i \in 1..Len(ARGORDER) : ARGORDER[i] = x) < (CHOOSE i \in 1..Len(ARGORDER) : ARGORDER[i] = y)

--------------------------------------------------------------------------
(* Templates *)

\* position of pat in s at or after position i (1-based), 0 when there is none
RECURSIVE Find(_, _, _)
Find(s, pat, i) ==
  IF i + Len(pat) - 1 > Len(s) THEN 0
  ELSE IF SubSeq(s, i, i + Len(pat) - 1) = pat THEN i
  ELSE Find(s, pat, i + 1)

\* Replace the templates of s from position pos on, leftmost first.  A value may
\* hold templates itself, they are replaced in turn; `open` holds the keys being
\* replaced at the moment, as pairs <<key, length of the text behind its value>>.
\* A key with no value, or used inside its own value, makes the result not ok.
RECURSIVE RenderFrom(_, _, _, _, _, _)
RenderFrom(s, pos, e, argv, open, ok) ==
  LET l == Find(s, "[[", pos)
      r == IF l = 0 THEN 0 ELSE Find(s, "]]", l + 2)
  IN IF l = 0 \/ r = 0 THEN [ok |-> ok, s |-> s]
     ELSE LET key == SubSeq(s, l + 2, r - 1)
              rest == SubSeq(s, r + 2, Len(s))
              still == {o \in open : l <= Len(s) - o[2]}
              cyclic == \E o \in still : o[1] = key
              inEnv == Has(e, key)
              inArg == ~inEnv /\ key \in DOMAIN argv /\ argv[key].v # ""
              val == IF inEnv THEN Get(e, key) ELSE IF inArg THEN argv[key].v ELSE ""
          IN IF cyclic \/ ~(inEnv \/ inArg)
             THEN RenderFrom(s, r + 2, e, argv, still, FALSE)
             ELSE RenderFrom(SubSeq(s, 1, l - 1) \o val \o rest, l, e, argv,
                             still \cup {<<key, Len(rest)>>}, ok)
Render(s, e, argv) == RenderFrom(s, 1, e, argv, {}, TRUE)
NOARGV == [x \in {} |-> ""]

RenderKVs(kvs, e, argv) ==
  [i \in 1..Len(kvs) |-> [kvs[i] EXCEPT !.v = Render(kvs[i].v, e, argv)]]
RenderCall(call, e, argv) ==
  [call EXCEPT !.c = Render(call.c, e, argv), !.args = RenderKVs(call.args, e, argv), !.env = RenderKVs(call.env, e, argv)]
AllOk(kvs) == \A i \in 1..Len(kvs) : kvs[i].v.ok
\* every call of a rendered flow has a known command, known arguments
CallParses(call) ==
  /\ Known(call.c)
  /\ \A i \in 1..Len(call.args) : \E j \in 1..Len(Cmds[call.c].args) :
        Cmds[call.c].args[j].n = call.args[i].a
\* a sequence is stored rendered: values are strings from here on
Strip(call) ==
  [call EXCEPT !.c = @.s,
               !.args = [i \in 1..Len(@) |-> [@[i] EXCEPT !.v = @.s]],
               !.env = [i \in 1..Len(@) |-> [@[i] EXCEPT !.v = @.s]]]
\* repeated calls
RECURSIVE SplitAt(_, _, _)
SplitAt(s, from, i) ==
  IF i > Len(s) THEN <<SubSeq(s, from, Len(s))>>
  ELSE IF SubSeq(s, i, i) = "," THEN <<SubSeq(s, from, i - 1)>> \o SplitAt(s, i + 1, i + 1)
  ELSE SplitAt(s, from, i + 1)
RECURSIVE Trim(_)
Trim(s) ==
  IF s = "" THEN s
  ELSE IF SubSeq(s, 1, 1) = " " THEN Trim(SubSeq(s, 2, Len(s)))
  ELSE IF SubSeq(s, Len(s), Len(s)) = " " THEN Trim(SubSeq(s, 1, Len(s) - 1))
  ELSE s
Elements(s) == LET p == SplitAt(s, 1, 1) IN [i \in 1..Len(p) |-> Trim(p[i])]
PutFirst(s, pat, v) ==
  LET l == Find(s, pat, 1) IN IF l = 0 THEN s ELSE SubSeq(s, 1, l - 1) \o v \o SubSeq(s, l + Len(pat), Len(s))
Copy(call, el) ==
  [call EXCEPT !.rep = "",
               !.args = [i \in 1..Len(@) |-> [@[i] EXCEPT !.v = PutFirst(@, "[[*" \o call.rep \o "*]]", el)]]]
InArgv(k, argv) == k \in DOMAIN argv /\ argv[k].v # ""
RepOk(call, e, argv) == call.rep = "" \/ Has(e, call.rep) \/ InArgv(call.rep, argv)
Copies(call, e, argv) ==
  IF call.rep = "" THEN <<call>>
  ELSE LET els == Elements(IF Has(e, call.rep) THEN Get(e, call.rep) ELSE argv[call.rep].v)
       IN [i \in 1..Len(els) |-> Copy(call, els[i])]
RECURSIVE Expand(_, _, _, _)
Expand(calls, n, e, argv) ==
  IF n > Len(calls) THEN <<>> ELSE Copies(calls[n], e, argv) \o Expand(calls, n + 1, e, argv)

RenderFlow(d, e, argv) ==
  LET repsOk == \A i \in 1..Len(d.flow) : RepOk(d.flow[i], e, argv)
      flow == IF repsOk THEN Expand(d.flow, 1, e, argv) ELSE <<>>
      calls == [i \in 1..Len(flow) |-> RenderCall(flow[i], e, argv)]
      genv == RenderKVs(d.genv, e, argv)
  IN [ok |-> repsOk /\ AllOk(genv) /\ \A i \in 1..Len(calls) : calls[i].c.ok /\ AllOk(calls[i].args) /\ AllOk(calls[i].env),
      parses |-> \A i \in 1..Len(calls) : CallParses(Strip(calls[i])),
      genv |-> [i \in 1..Len(genv) |-> [genv[i] EXCEPT !.v = @.s]],
      calls |-> [i \in 1..Len(calls) |-> Strip(calls[i])]]

--------------------------------------------------------------------------
(* Entering a call *)

RECURSIVE ApplyKVs(_, _, _, _)
\* write a {k=v ...} group into layer i
ApplyKVs(e, i, kvs, n) ==
  IF n > Len(kvs) THEN e
  ELSE ApplyKVs(IF kvs[n].del THEN DelAt(e, i, kvs[n].k) ELSE SetAt(e, i, kvs[n].k, kvs[n].v),
                i, kvs, n + 1)
RECURSIVE ApplyArgs(_, _, _, _)
ApplyArgs(e, c, args, n) ==
  IF n > Len(args) THEN e
  ELSE ApplyArgs(SetArgAt(e, Len(e), ArgKey(c, args[n].a), args[n].v), c, args, n + 1)

\* the default of an argument taken over by '*' only counts for a command of the
\* invocation itself, not inside of flows
DefOf(a, depth) == IF "star" \in DOMAIN a /\ a.star /\ depth > 1 THEN "" ELSE a.def
ArgvOf(e, c, depth) ==
  LET d == Cmds[c]
  IN [n \in {d.args[i].n : i \in 1..Len(d.args)} |->
        LET i == CHOOSE i \in 1..Len(d.args) : d.args[i].n = n
            k == ArgKey(c, n)
        IN IF Has(e, k) THEN [v |-> Get(e, k), given |-> TRUE]
           ELSE [v |-> DefOf(d.args[i], depth), given |-> FALSE]]
ArgList(c, argv) == [i \in 1..Len(Cmds[c].args) |-> argv[Cmds[c].args[i].n].v]

RECURSIVE ApplyV2E(_, _, _, _)
ApplyV2E(e, d, argv, n) ==
  IF n > Len(d.v2e) THEN e
  ELSE LET si == SessionIdx(e)
           v == Render(d.v2e[n].v, SubSeq(e, 1, si), argv).s
       IN ApplyV2E(SetAt(e, si, d.v2e[n].k, v), d, argv, n + 1)
RECURSIVE ApplyA2E(_, _, _, _)
ApplyA2E(e, d, argv, n) ==
  IF n > Len(d.a2e) THEN e
  ELSE LET si == SessionIdx(e)
           a == argv[d.a2e[n].a]
           k == d.a2e[n].k
           skip == (~a.given /\ a.v = "") \/ (~a.given /\ HasAt(e, si, k))
       IN ApplyA2E(IF skip THEN e ELSE SetAt(e, si, k, a.v), d, argv, n + 1)

\* The env during a call, with its argument values
EnterCall(e, call, depth) ==
  LET d == Cmds[call.c]
      e1 == ApplyKVs(Push(e, "cmd"), Len(e) + 1, call.env, 1)
      e2 == ApplyArgs(e1, call.c, call.args, 1)
      argv == ArgvOf(e2, call.c, depth)
      e3 == ApplyA2E(ApplyV2E(e2, d, argv, 1), d, argv, 1)
  IN [env |-> e3, argv |-> argv]

EnterFlow(e, genv) == ApplyKVs(Push(e, "sub"), Len(e) + 1, genv, 1)

--------------------------------------------------------------------------
(* Checks made before anything runs *)

\* the outcome of statically walking a sequence:
\*   bad: some declared read has no earlier writer and no value
\*   broken: a flow could not be expanded
RECURSIVE WalkOps(_, _, _, _)
WalkOps(ops, n, e, st) ==
  IF n > Len(ops) THEN st
  ELSE LET k == ops[n].k
           old == IF k \in DOMAIN st.seen THEN st.seen[k] ELSE {}
           now == old \cup {ops[n].op}
           bad == ops[n].op = "read" /\ "write" \notin now /\ "may-write" \notin now /\ Get(e, k) = ""
       IN WalkOps(ops, n + 1, e, [st EXCEPT !.seen = (k :> now) @@ @, !.bad = @ \/ bad])

RECURSIVE WalkSeq(_, _, _, _, _)
WalkSeq(calls, n, e, st, depth) ==
  IF n > Len(calls) \/ st.broken THEN st
  ELSE LET d == Cmds[calls[n].c]
           en == EnterCall(e, calls[n], depth)
           st1 == WalkOps(d.ops, 1, en.env, st)
           st2 == [st1 EXCEPT !.nodep = @ \/ ~d.dep]
           fl == RenderFlow(d, en.env, en.argv)
           st3 == IF ~HasFlow(d) THEN [st2 EXCEPT !.env = en.env]
                  ELSE IF ~fl.ok \/ ~fl.parses THEN [st2 EXCEPT !.broken = TRUE]
                  ELSE WalkSeq(fl.calls, 1, EnterFlow(en.env, fl.genv), [st2 EXCEPT !.env = en.env], depth + 1)
           \* what the call left in the layers that outlive it
           after == IF st3.broken THEN e ELSE SubSeq(st3.env, 1, Len(e))
       IN IF st3.broken THEN st3 ELSE WalkSeq(calls, n + 1, after, [st3 EXCEPT !.env = after], depth)

Walk(calls, e) ==
  WalkSeq(calls, 1, e, [seen |-> EmptyKV, bad |-> FALSE, broken |-> FALSE, nodep |-> FALSE, env |-> e], 1)

--------------------------------------------------------------------------
(* Automatic arguments *)

\* A command with `auto`, a sequence of [k, a, v]:
\*   k = "val"   declares one more argument a with default v
\*   k = "name"  takes over the argument a of the first command of its flow (deeply)
\*               which maps an argument of that name to an env key
\*   k = "star"  takes over all other arguments which are mapped to keys that no
\*               command of the flow declares to write; "all" takes over those too
\* An argument taken over gets the default and the mapping of the one it comes from.
AutoOf(d) == IF "auto" \in DOMAIN d THEN d.auto ELSE <<>>
AutoArgs(d) == SelectSeq(AutoOf(d), LAMBDA x : x.k = "val")
AutoNames(d) == {AutoOf(d)[i].a : i \in {j \in 1..Len(AutoOf(d)) : AutoOf(d)[j].k = "name"}}
HasStar(d) == \E i \in 1..Len(AutoOf(d)) : AutoOf(d)[i].k \in {"star", "all"}
MapsAll(d) == \E i \in 1..Len(AutoOf(d)) : AutoOf(d)[i].k = "all"
WrittenBy(d) == {d.ops[i].k : i \in {j \in 1..Len(d.ops) : d.ops[j].op \in {"write", "may-write"}}}
KnownIn(cmds, call) ==
  call.c \in DOMAIN cmds /\ \A i \in 1..Len(call.args) : \E j \in 1..Len(cmds[call.c].args) : cmds[call.c].args[j].n = call.args[i].a
ArgNames(d) == {d.args[i].n : i \in 1..Len(d.args)} \cup {AutoArgs(d)[i].a : i \in 1..Len(AutoArgs(d))}

RECURSIVE TakeFrom(_, _, _, _)
\* what t takes over from one command
TakeFrom(t, d, n, st) ==
  IF n > Len(d.a2e) THEN st
  ELSE LET a == d.a2e[n].a
           named == a \in AutoNames(t) /\ a \notin st.mapped
           arg == d.args[CHOOSE i \in 1..Len(d.args) : d.args[i].n = a]
           def == arg.def
           take == /\ ~("star" \in DOMAIN arg /\ arg.star)
                   /\ named \/ HasStar(t)
                   /\ a \notin ArgNames(t)
                   /\ ~(\E i \in 1..Len(t.a2e) : t.a2e[i].k = d.a2e[n].k)
       IN TakeFrom(t, d, n + 1,
            IF ~take THEN st
            ELSE [st EXCEPT !.from = (a :> [k |-> d.a2e[n].k, def |-> def]) @@ @,
                            !.mapped = IF named THEN @ \cup {a} ELSE @])

FullyMapped(t, st) ==
  ~HasStar(t) /\ Cardinality(st.mapped) = Cardinality(AutoNames(t)) + Len(AutoArgs(t))

RECURSIVE Collect(_, _, _, _), CollectSeq(_, _, _, _, _)
Collect(cmds, t, c, st) ==
  LET st1 == [st EXCEPT !.met = @ \cup {c}]
  IN IF ~HasFlow(cmds[c]) THEN st1 ELSE CollectSeq(cmds, t, cmds[c].flow, 1, st1)
CollectSeq(cmds, t, calls, n, st) ==
  IF n > Len(calls) \/ st.over THEN st
  ELSE LET c == calls[n].c
       IN IF c \notin DOMAIN cmds \/ c \in st.met THEN CollectSeq(cmds, t, calls, n + 1, st)
          ELSE IF ~KnownIn(cmds, calls[n]) THEN CollectSeq(cmds, t, calls, n + 1, [st EXCEPT !.met = @ \cup {c}])
          ELSE LET st1 == Collect(cmds, t, c, st)
                   st2 == IF st1.over THEN st1 ELSE TakeFrom(t, cmds[c], 1, st1)
               IN CollectSeq(cmds, t, calls, n + 1, [st2 EXCEPT !.over = @ \/ FullyMapped(t, st2)])

\* names in the order in which '*' lists them
Sorted(S) == SortSeq(SetToSeq(S), LAMBDA x, y : Before(x, y))

RECURSIVE TakeOver(_, _, _, _, _)
TakeOver(t, names, n, st, res) ==
  IF n > Len(names) THEN res
  ELSE LET a == names[n].a
           star == names[n].star
           have == a \in DOMAIN st.from
           k == IF have THEN st.from[a].k ELSE ""
           ok == /\ have
                 /\ ~(HasStar(t) /\ ~MapsAll(t) /\ a \notin AutoNames(t) /\ k \in st.written)
                 /\ ~(\E i \in 1..Len(res.a2e) : res.a2e[i].k = k)
       IN TakeOver(t, names, n + 1, st,
            IF ~ok THEN res
            ELSE [args |-> Append(res.args, [n |-> a, def |-> st.from[a].def, star |-> star]),
                  a2e |-> Append(res.a2e, [k |-> k, a |-> a])])

RECURSIVE Declared(_, _)
\* the arguments in the order of the definitions; those of kind "val" are there already
Declared(au, n) ==
  IF n > Len(au) THEN <<>>
  ELSE (IF au[n].k = "val" THEN <<au[n].a>> ELSE IF au[n].k = "name" THEN <<au[n].a>> ELSE <<>>) \o Declared(au, n + 1)

WithAuto(cmds, c) ==
  LET t == cmds[c]
      st0 == Collect(cmds, t, c, [met |-> {}, from |-> EmptyKV, mapped |-> {}, over |-> FALSE])
      st == [met |-> st0.met, from |-> st0.from, written |-> UNION {WrittenBy(cmds[m]) : m \in st0.met}]
      named == SelectSeq(AutoOf(t), LAMBDA x : x.k = "name")
      rest == IF HasStar(t) THEN Sorted(DOMAIN st.from \ AutoNames(t)) ELSE <<>>
      names == [i \in 1..Len(named) |-> [a |-> named[i].a, star |-> FALSE]]
               \o [i \in 1..Len(rest) |-> [a |-> rest[i], star |-> TRUE]]
      vals == [i \in 1..Len(AutoArgs(t)) |-> [n |-> AutoArgs(t)[i].a, def |-> AutoArgs(t)[i].v, star |-> FALSE]]
      got == TakeOver(t, names, 1, st, [args |-> <<>>, a2e |-> t.a2e])
      all == vals \o got.args
      order == Declared(AutoOf(t), 1) \o rest
      has(n) == \E i \in 1..Len(all) : all[i].n = n
      listed == SelectSeq(order, has)
  IN [t EXCEPT !.a2e = got.a2e,
               !.args = @ \o [i \in 1..Len(listed) |-> all[CHOOSE j \in 1..Len(all) : all[j].n = listed[i]]]]

RECURSIVE Reach(_, _)
\* the commands in the flow of S, deeply
Reach(cmds, S) ==
  LET T == S \cup {x \in DOMAIN cmds : \E s \in S : \E i \in 1..Len(cmds[s].flow) : cmds[s].flow[i].c = x}
  IN IF T = S THEN S ELSE Reach(cmds, T)
RECURSIVE CompleteAll(_, _)
\* a command is completed before the ones which use it
CompleteAll(cmds, todo) ==
  IF todo = {} THEN cmds
  ELSE LET c == CHOOSE x \in todo : Reach(cmds, {x}) \cap todo = {x}
       IN CompleteAll([cmds EXCEPT ![c] = WithAuto(cmds, c)], todo \ {c})
Completed(c) ==
  LET todo == {n \in DOMAIN c.cmds : AutoOf(c.cmds[n]) # <<>>}
  IN IF todo = {} THEN c ELSE [c EXCEPT !.cmds = CompleteAll(c.cmds, todo)]

--------------------------------------------------------------------------
(* The machine *)

Frame(calls, owner) == [calls |-> calls, pc |-> 1, st |-> "next", argv |-> EmptyKV, owner |-> owner]
Top == frames[Len(frames)]
SetTop(f) == [frames EXCEPT ![Len(frames)] = f]

BaseEnv(cs) ==
  << Layer("base", [k \in {cs.base[i].k : i \in 1..Len(cs.base)} |->
                      (LET i == CHOOSE i \in 1..Len(cs.base) : cs.base[i].k = k IN cs.base[i].v)], {}),
     Layer("session", EmptyKV, {}) >>

InitFor(c) ==
  /\ prog = Completed(c)
  /\ phase = "parse"
  /\ env = BaseEnv(c)
  /\ frames = <<>>
  /\ cause = ""
  /\ pend = <<>>
  /\ runs = <<>>
  /\ rec = <<>>
  /\ rc = 1000
Init == \E c \in Cases : InitFor(c)

Ev(e, c, s, r) == [e |-> e, c |-> c, s |-> s, r |-> r]
NOENV == [k \in {} |-> ""]

Finish(code, recording) ==
  /\ phase' = "done" /\ rc' = code /\ rec' = rec \o recording

MainCalls == C.main
MainGenv == C.genv

\* The command line is turned into calls; any error in it refuses the whole.
Parse ==
  /\ phase = "parse"
  /\ IF \A i \in 1..Len(C.main) : CallParses(C.main[i])
     THEN /\ phase' = "check"
          /\ env' = ApplyKVs(env, 2, MainGenv, 1)
          /\ UNCHANGED <<rc, rec>>
     ELSE /\ Finish(1, <<>>)
          /\ UNCHANGED env
  /\ UNCHANGED <<prog, frames, cause, pend, runs>>

\* Flows that cannot be expanded, unprovided env reads and missing OS commands
\* are all found before the first command runs.
Preflight ==
  /\ phase = "check"
  /\ LET w == Walk(MainCalls, env)
     IN IF w.broken THEN Finish(255, <<>>) /\ UNCHANGED frames
        ELSE IF w.bad \/ w.nodep THEN Finish(1, <<Ev("done", "", NOENV, "ERR")>>) /\ UNCHANGED frames
        ELSE /\ phase' = "run" /\ frames' = <<Frame(MainCalls, "")>>
             /\ UNCHANGED <<rc, rec>>
  /\ UNCHANGED <<prog, env, cause, pend, runs>>

CurCall == Top.calls[Top.pc]
CurCmd == Cmds[CurCall.c]

StartCall ==
  /\ phase = "run" /\ Top.st = "next" /\ Top.pc <= Len(Top.calls)
  /\ LET en == EnterCall(env, CurCall, Len(frames))
     IN /\ env' = en.env
        /\ rec' = Append(rec, Ev("start", CurCall.c, CallView(en.env, KEYS), ""))
        /\ frames' = SetTop([Top EXCEPT !.st = IF HasFlow(CurCmd) THEN "flow" ELSE IF HasFile(CurCmd) THEN "file" ELSE "ok", !.argv = en.argv])
  /\ UNCHANGED <<prog, phase, cause, pend, runs, rc>>

EnterSubFlow ==
  /\ phase = "run" /\ Top.st = "flow"
  /\ LET fl == RenderFlow(CurCmd, env, Top.argv)
     IN IF ~fl.ok
        THEN /\ phase' = "unwind" /\ cause' = "panic"
             /\ frames' = SetTop([Top EXCEPT !.st = "failed"])
             /\ UNCHANGED <<env, rec>>
        ELSE IF ~fl.parses
        THEN \* the expansion became unusable only now (its text depends on the env)
             /\ phase' = "unwind" /\ cause' = "false"
             /\ rec' = rec \o <<Ev("sub", "", NOENV, ""), Ev("subend", "", NOENV, "ERR")>>
             /\ frames' = SetTop([Top EXCEPT !.st = "failed"])
             /\ UNCHANGED env
        ELSE /\ env' = EnterFlow(env, fl.genv)
             /\ rec' = Append(rec, Ev("sub", "", NOENV, ""))
             /\ frames' = Append(SetTop([Top EXCEPT !.st = "inflow"]), Frame(fl.calls, CurCall.c))
             /\ UNCHANGED <<phase, cause>>
  /\ UNCHANGED <<prog, pend, runs, rc>>

LeaveSubFlow ==
  /\ phase = "run" /\ Top.st = "next" /\ Top.pc > Len(Top.calls) /\ Len(frames) > 1
  /\ env' = Pop(env)
  /\ rec' = Append(rec, Ev("subend", "", NOENV, "OK"))
  /\ LET fs == SubSeq(frames, 1, Len(frames) - 1)
         f == fs[Len(fs)]
         d == Cmds[f.calls[f.pc].c]
     IN frames' = [fs EXCEPT ![Len(fs)] = [f EXCEPT !.st = IF HasFile(d) THEN "file" ELSE "ok"]]
  /\ UNCHANGED <<prog, phase, cause, pend, runs, rc>>

RECURSIVE ApplyEff(_, _, _)
ApplyEff(e, eff, n) ==
  IF n > Len(eff) THEN e
  ELSE LET si == SessionIdx(e)
       IN ApplyEff(IF eff[n].del THEN DelAt(e, si, eff[n].k) ELSE SetAt(e, si, eff[n].k, eff[n].v), eff, n + 1)

\* a program is never started without the OS commands it needs, even when it became
\* known only now that it is involved
LacksOsCmd ==
  /\ phase = "run" /\ Top.st = "file" /\ ~CurCmd.dep
  /\ phase' = "unwind" /\ cause' = "panic"
  /\ frames' = SetTop([Top EXCEPT !.st = "failed"])
  /\ UNCHANGED <<prog, env, pend, runs, rec, rc>>

RunFile ==
  /\ phase = "run" /\ Top.st = "file" /\ CurCmd.dep
  /\ runs' = Append(runs, [c |-> CurCall.c, a |-> ArgList(CurCall.c, Top.argv), s |-> SessionView(env, KEYS), at |-> Len(rec)])
  /\ IF CurCmd.fail /\ ~CurCall.ok
     THEN /\ phase' = "unwind" /\ cause' = "panic"
          /\ frames' = SetTop([Top EXCEPT !.st = "failed"])
          /\ UNCHANGED env
     ELSE /\ env' = ApplyEff(env, CurCmd.eff, 1)
          /\ frames' = SetTop([Top EXCEPT !.st = "ok"])
          /\ UNCHANGED <<phase, cause>>
  /\ UNCHANGED <<prog, pend, rec, rc>>

EndCall ==
  /\ phase = "run" /\ Top.st = "ok"
  /\ rec' = Append(rec, Ev("end", CurCall.c, CallView(env, KEYS), "OK"))
  /\ env' = Pop(env)
  /\ frames' = SetTop([Top EXCEPT !.st = "next", !.pc = @ + 1])
  /\ UNCHANGED <<prog, phase, cause, pend, runs, rc>>

\* The call on top of the stack has failed.
\* A panic is recorded at the call it comes from and travels up until a call
\* tolerates it or (quiet-error) turns it into a plain failure.
FailCall ==
  /\ phase = "unwind" /\ Top.st = "failed"
  /\ LET tol == CurCall.ok
         becomes == IF cause = "panic" /\ CurCmd.quiet THEN "false" ELSE cause
     IN /\ rec' = Append(rec, Ev("end", CurCall.c, CallView(env, KEYS), "ERR"))
        /\ env' = Pop(env)
        /\ IF tol
           THEN /\ phase' = "run" /\ cause' = ""
                /\ frames' = SetTop([Top EXCEPT !.st = "next", !.pc = @ + 1])
           ELSE /\ cause' = becomes /\ UNCHANGED phase
                /\ frames' = SetTop([Top EXCEPT !.st = "up"])
  /\ UNCHANGED <<prog, pend, runs, rc>>

\* ... and takes the sequence it is in with it
FailSeq ==
  /\ phase = "unwind" /\ Top.st = "up" /\ Len(frames) > 1
  /\ LET fs == SubSeq(frames, 1, Len(frames) - 1)
         f == fs[Len(fs)]
         call == f.calls[f.pc]
         caught == call.ok \/ Cmds[call.c].quiet
         close == Ev("subend", "", NOENV, "ERR")
     IN /\ env' = Pop(env)
        /\ IF cause = "false" \/ caught
           THEN /\ rec' = rec \o Append(pend, close) /\ pend' = <<>>
                /\ frames' = [fs EXCEPT ![Len(fs)] = [f EXCEPT !.st = "failed"]]
           ELSE /\ pend' = Append(pend, close)
                /\ frames' = [fs EXCEPT ![Len(fs)] = [f EXCEPT !.st = "lost"]]
                /\ UNCHANGED rec
  /\ UNCHANGED <<prog, phase, cause, runs, rc>>

\* a call passed by a panic which it does not stop
PassCall ==
  /\ phase = "unwind" /\ Top.st = "lost"
  /\ env' = Pop(env)
  /\ pend' = Append(pend, Ev("end", CurCall.c, [k \in KEYS |-> ABSENT], "ERR"))
  /\ frames' = SetTop([Top EXCEPT !.st = "up"])
  /\ UNCHANGED <<prog, phase, cause, runs, rec, rc>>

FailMain ==
  /\ phase = "unwind" /\ Top.st = "up" /\ Len(frames) = 1
  /\ IF cause = "panic" THEN Finish(255, <<>>)
     ELSE Finish(1, <<Ev("done", "", NOENV, "ERR")>>)
  /\ UNCHANGED <<prog, env, frames, cause, pend, runs>>

EndMain ==
  /\ phase = "run" /\ Len(frames) = 1 /\ Top.st = "next" /\ Top.pc > Len(Top.calls)
  /\ Finish(0, <<Ev("done", "", NOENV, "OK")>>)
  /\ UNCHANGED <<prog, env, frames, cause, pend, runs>>

Next ==
  \/ Parse \/ Preflight \/ StartCall \/ EnterSubFlow \/ LeaveSubFlow \/ RunFile \/ LacksOsCmd \/ EndCall
  \/ FailCall \/ FailSeq \/ PassCall \/ FailMain \/ EndMain

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
