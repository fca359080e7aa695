----------------------------- MODULE TicatRepeat ----------------------------
(***************************************************************************)
(* Commands which run other commands more than once.                       *)
(*                                                                         *)
(* join.new    adds a key with a list of values (or a range of numbers)    *)
(* join.run    runs a command once per combination of the values collected *)
(*             so far, the values of the last key changing fastest         *)
(* repeat      runs a command a number of times                            *)
(* selftest    runs all commands having a tag, in forest mode if there is  *)
(*             more than one                                               *)
(* forest-mode from here on every command of this sequence starts with the *)
(*             env of this moment: what it does to the env ends with it    *)
(*                                                                         *)
(* A case is                                                               *)
(*   cmds  name -> [ty "leaf"|"flow", tags, fail, quiet, items]            *)
(*         a leaf has arguments x and y and appends its name to the env    *)
(*         value "acc"; fail is "" | "always" | the value of x it fails on *)
(*   order the names of the commands in the order they are known           *)
(*   main  items                                                           *)
(* An item is [op, c, x, k, form, vals, a, b, s, n, ok].                   *)
(* The visible behaviour is `runs`, what every program saw, and `rc`.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANT Cases
VARIABLES
  prog,    \* the case
  env,     \* [acc, kvs]: the session's env
  frames,  \* stack of sequences being executed
  st,      \* "start" "run" "fail" "done"
  runs,
  rc
vars == <<prog, env, frames, st, runs, rc>>

ITEM == [op |-> "call", c |-> "", x |-> "", k |-> "", form |-> "list", vals |-> <<>>, a |-> 0, b |-> 0, s |-> 1, n |-> 0, ok |-> FALSE]
Call(c) == [ITEM EXCEPT !.c = c]
NOENV == [acc |-> "", kvs |-> <<>>]

\* kind: what the sequence belongs to
Frame(kind, items, given, forest) ==
  [kind |-> kind, items |-> items, given |-> given, pc |-> 1, forest |-> forest, kept |-> NOENV, base |-> NOENV, based |-> FALSE]
Top == frames[Len(frames)]
Item == Top.items[Top.pc]
SetTop(f) == [frames EXCEPT ![Len(frames)] = f]
Cmds == prog.cmds

--------------------------------------------------------------------------
(* Combinations *)
RECURSIVE Num(_, _, _)
Num(a, b, s) == IF a > b THEN <<>> ELSE <<ToString(a)>> \o Num(a + s, b, s)
\* a range which does not end is refused
NewOk(it) == it.form = "list" \/ it.s > 0
Values(it) == IF it.form = "list" THEN it.vals ELSE Num(it.a, it.b, it.s)

Longer(shorter, kv) ==
  FlattenSeq([i \in 1..Len(shorter) |-> [j \in 1..Len(kv.vals) |-> Append(shorter[i], [k |-> kv.k, v |-> kv.vals[j]])]])
\* all choices of one value per key, in order
Combos(kvs) == FoldLeft(Longer, << <<>> >>, kvs)
\* of two values for one argument the later counts
ValOf(given, k, default) ==
  LET is == {i \in 1..Len(given) : given[i].k = k}
  IN IF is = {} THEN default ELSE given[CHOOSE i \in is : \A j \in is : j <= i].v
\* a leaf knows the arguments x and y, a flow none
Takes(c, given) ==
  /\ c \in DOMAIN Cmds
  /\ \A i \in 1..Len(given) : Cmds[c].ty = "leaf" /\ given[i].k \in {"x", "y"}

Tagged(t) == SelectSeq(prog.order, LAMBDA n : t \in Cmds[n].tags)

--------------------------------------------------------------------------
(* What is refused before anything runs *)
RECURSIVE Bad(_)
Bad(items) ==
  \E i \in 1..Len(items) :
    LET it == items[i]
    IN \/ it.op = "repeat" /\ (it.n <= 0 \/ (Cmds[it.c].ty = "flow" /\ Bad(Cmds[it.c].items)))
       \/ it.op = "call" /\ Cmds[it.c].ty = "flow" /\ Bad(Cmds[it.c].items)
       \/ it.op = "selftest" /\ \E n \in ToSet(Tagged(it.c)) : Cmds[n].ty = "flow" /\ Bad(Cmds[n].items)

--------------------------------------------------------------------------
Init ==
  \E c \in Cases :
    /\ prog = c /\ env = [acc |-> c.acc, kvs |-> <<>>] /\ frames = <<Frame("main", c.main, <<>>, FALSE)>>
    /\ st = "start" /\ runs = <<>> /\ rc = -1

Begin ==
  /\ st = "start"
  /\ IF Bad(prog.main) THEN st' = "done" /\ rc' = 1 ELSE st' = "run" /\ rc' = rc
  /\ UNCHANGED <<prog, env, frames, runs>>

\* the current item of the top frame of fs is over, e is what it left in the env
AfterItem(fs, e) ==
  LET f == fs[Len(fs)]
  IN /\ frames' = [fs EXCEPT ![Len(fs)] = [f EXCEPT !.pc = @ + 1]]
     /\ env' = IF f.forest THEN f.kept ELSE e
Held == [Top EXCEPT !.kept = env, !.base = IF Top.based THEN @ ELSE env, !.based = TRUE]

Fails == st' = "fail" /\ frames' = SetTop(Held)
Push(f) == frames' = Append(SetTop(Held), f)
At(op) == st = "run" /\ Top.pc <= Len(Top.items) /\ Item.op = op

Forest ==
  /\ At("forest")
  /\ frames' = SetTop([Top EXCEPT !.forest = TRUE, !.pc = @ + 1, !.based = Top.forest /\ Top.based])
  /\ UNCHANGED <<prog, env, st, runs, rc>>

New ==
  /\ At("new")
  /\ IF NewOk(Item)
     THEN /\ AfterItem(SetTop(Held), [env EXCEPT !.kvs = Append(@, [k |-> Item.k, vals |-> Values(Item)])])
          /\ UNCHANGED st
     ELSE Fails /\ UNCHANGED env
  /\ UNCHANGED <<prog, runs, rc>>

\* a call of a program or of a flow, with the arguments given to it
Leaf ==
  /\ At("call") /\ Cmds[Item.c].ty = "leaf"
  /\ LET c == Item.c
         d == Cmds[c]
         given == IF Item.x = "" THEN Top.given ELSE Append(Top.given, [k |-> "x", v |-> Item.x])
         x == ValOf(given, "x", "dx")
         fails == d.fail = "always" \/ d.fail = x
         e == [env EXCEPT !.acc = @ \o c]
     IN /\ runs' = Append(runs, [c |-> c, x |-> x, y |-> ValOf(given, "y", "dy"), acc |-> env.acc])
        /\ IF fails /\ ~Item.ok
           THEN Fails /\ UNCHANGED env
           ELSE AfterItem(SetTop(Held), e) /\ UNCHANGED st
  /\ UNCHANGED <<prog, rc>>
Flow ==
  /\ At("call") /\ Cmds[Item.c].ty = "flow"
  /\ Push(Frame("flow", Cmds[Item.c].items, <<>>, FALSE))
  /\ UNCHANGED <<prog, env, st, runs, rc>>

\* one frame per combination, the first one below the others
Run ==
  /\ At("run")
  /\ IF env.kvs = <<>> \/ Combos(env.kvs) = <<>>
     THEN Fails
     ELSE Push(Frame("run", [i \in 1..Len(Combos(env.kvs)) |-> [Call(Item.c) EXCEPT !.op = "combo"]], env.kvs, FALSE)) /\ UNCHANGED st
  /\ UNCHANGED <<prog, env, runs, rc>>
Combo ==
  /\ At("combo")
  /\ LET given == Combos(Top.given)[Top.pc]
     IN IF Takes(Item.c, given) THEN Push(Frame("combo", <<Call(Item.c)>>, given, FALSE)) /\ UNCHANGED st
        ELSE Fails
  /\ UNCHANGED <<prog, env, runs, rc>>

Repeat ==
  /\ At("repeat")
  /\ Push(Frame("repeat", [i \in 1..Item.n |-> Call(Item.c)], <<>>, FALSE))
  /\ UNCHANGED <<prog, env, st, runs, rc>>

Selftest ==
  /\ At("selftest")
  /\ LET l == Tagged(Item.c)
     IN Push(Frame("selftest", [i \in 1..Len(l) |-> Call(l[i])], <<>>, Len(l) > 1))
  /\ UNCHANGED <<prog, env, st, runs, rc>>

Leave ==
  /\ st = "run" /\ Top.pc > Len(Top.items)
  /\ IF Len(frames) = 1
     THEN st' = "done" /\ rc' = 0 /\ UNCHANGED <<frames, env>>
     ELSE AfterItem(SubSeq(frames, 1, Len(frames) - 1), env) /\ UNCHANGED <<st, rc>>
  /\ UNCHANGED <<prog, runs>>

\* the current item of the top frame has failed
Unwind ==
  /\ st = "fail"
  /\ IF Item.ok THEN st' = "run" /\ AfterItem(frames, env) /\ UNCHANGED rc
     ELSE IF Len(frames) = 1 THEN st' = "done" /\ rc' = 1 /\ UNCHANGED <<frames, env>>
     ELSE frames' = SubSeq(frames, 1, Len(frames) - 1) /\ env' = (IF Top.forest THEN Top.kept ELSE env) /\ UNCHANGED <<st, rc>>
  /\ UNCHANGED <<prog, runs>>

Next == Begin \/ Forest \/ New \/ Leaf \/ Flow \/ Run \/ Combo \/ Repeat \/ Selftest \/ Leave \/ Unwind
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

--------------------------------------------------------------------------
(* Properties *)

\* in forest mode every command of the sequence starts with the same env
SameStart ==
  \A i \in 1..Len(frames) :
    (frames[i].forest /\ frames[i].based) =>
       frames[i].kept = frames[i].base /\ (st = "run" /\ i = Len(frames) => env = frames[i].base)
\* every combination exactly once, in order
RECURSIVE Product(_)
Product(kvs) == IF kvs = <<>> THEN 1 ELSE Len(Head(kvs).vals) * Product(Tail(kvs))
IndexOf(kvs, combo) == [i \in 1..Len(kvs) |-> SelectInSeq(kvs[i].vals, LAMBDA v : v = combo[i].v)]
RECURSIVE Less(_, _)
Less(p, q) == p # <<>> /\ (Head(p) < Head(q) \/ (Head(p) = Head(q) /\ Less(Tail(p), Tail(q))))
AllCombos ==
  \A i \in 1..Len(frames) : frames[i].kind = "run" =>
    LET kvs == frames[i].given
        cs == Combos(kvs)
    IN /\ Len(cs) = Product(kvs) /\ Len(frames[i].items) = Len(cs)
       /\ (\A j \in 1..Len(kvs) : IsInjective(kvs[j].vals)) =>
            \A j \in 1..Len(cs) - 1 : Less(IndexOf(kvs, cs[j]), IndexOf(kvs, cs[j + 1]))
\* success means that nothing failed without being tolerated
Honest == st = "done" /\ rc = 0 => frames = <<Top>> /\ Top.pc > Len(Top.items)
Over == <>(st = "done")
=============================================================================
