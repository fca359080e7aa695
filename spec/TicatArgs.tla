----------------------------- MODULE TicatArgs -----------------------------
(* How the words behind a command become its arguments.                    *)
(*                                                                         *)
(* A word is [h, eq, t]: the text before the first "=", whether there is   *)
(* one, the text behind it. A declared argument is [names, def].           *)
(*                                                                         *)
(* Three notations: with any "=" all words are `name = value` with any     *)
(* spacing; without, values by position; more words than arguments and a   *)
(* name in front: `name value` pairs. What remains over makes the whole    *)
(* invocation fail, except for one single empty word.                      *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

CONSTANT Cases
VARIABLES case, phase, toks, mode, pos, binds, rc, got
vars == <<case, phase, toks, mode, pos, binds, rc, got>>

W(s) == [t |-> "w", s |-> s]
EQ == [t |-> "eq", s |-> "="]
ToksOf(w) ==
  IF ~w.eq THEN <<W(w.h)>>
  ELSE (IF w.h = "" THEN <<>> ELSE <<W(w.h)>>) \o <<EQ>> \o (IF w.t = "" THEN <<>> ELSE <<W(w.t)>>)
Words(c) == IF Len(c.words) = 1 /\ c.words[1] = [h |-> "", eq |-> FALSE, t |-> ""] THEN <<>> ELSE c.words
Toks(c) == FlattenSeq([i \in 1..Len(Words(c)) |-> ToksOf(Words(c)[i])])

N == Len(case.decl)
HasEq(ts) == \E i \in 1..Len(ts) : ts[i].t = "eq"
IsNameOf(s, i) == s \in Range(case.decl[i].names)
IsName(s) == \E i \in 1..N : IsNameOf(s, i)
ArgOf(s) == CHOOSE i \in 1..N : IsNameOf(s, i)
\* arguments every command has
SysNames == {"%err", "%delay", "%env"}
SysValid(n, v) == (n = "%err" /\ v = "ok") \/ (n = "%env" /\ v = "apply")

InitFor(c) ==
  /\ case = c /\ phase = "words" /\ toks = <<>> /\ mode = "" /\ pos = 1 /\ binds = <<>> /\ rc = 1000 /\ got = <<>>
Init == \E c \in Cases : InitFor(c)

\* the notation
Split ==
  /\ phase = "words"
  /\ LET ts == Toks(case) IN
     /\ toks' = ts
     /\ mode' = IF HasEq(ts) THEN "kv"
                ELSE IF Len(ts) > N /\ ts # <<>> /\ IsName(ts[1].s) THEN "pairs" ELSE "pos"
  /\ phase' = "bind" /\ UNCHANGED <<case, pos, binds, rc, got>>

Left == Len(toks) - pos + 1
Bind(i, v, n) == binds' = Append(binds, [arg |-> i, val |-> v, from |-> pos, n |-> n]) /\ pos' = pos + n

CanPos == mode = "pos" /\ pos <= Len(toks) /\ pos <= N
CanPair == mode = "pairs" /\ Left >= 2 /\ IsName(toks[pos].s)
KvHere == mode = "kv" /\ Left >= 3 /\ toks[pos + 1].t = "eq"
CanKv == KvHere /\ toks[pos].t = "w" /\ IsName(toks[pos].s)
CanSys == KvHere /\ toks[pos].s \in SysNames /\ SysValid(toks[pos].s, toks[pos + 2].s)

BindOne ==
  /\ phase = "bind"
  /\ \/ CanPos /\ Bind(pos, toks[pos].s, 1)
     \/ CanPair /\ Bind(ArgOf(toks[pos].s), toks[pos + 1].s, 2)
     \/ CanKv /\ Bind(ArgOf(toks[pos].s), toks[pos + 2].s, 3)
     \/ CanSys /\ Bind(0, toks[pos + 2].s, 3)
  /\ UNCHANGED <<case, phase, toks, mode, rc, got>>

CanBind == CanPos \/ CanPair \/ CanKv \/ CanSys
Rest == SubSeq(toks, pos, Len(toks))
\* one empty word left over is nothing
NothingLeft == Rest = <<>> \/ Rest = <<W("")>>

Refuse ==
  /\ phase = "bind" /\ ~CanBind /\ ~NothingLeft
  /\ phase' = "done" /\ rc' = 255 /\ UNCHANGED <<case, toks, mode, pos, binds, got>>

LastOf(i) == LET s == SelectSeq(binds, LAMBDA b : b.arg = i) IN IF s = <<>> THEN case.decl[i].def ELSE s[Len(s)].val
Start ==
  /\ phase = "bind" /\ ~CanBind /\ NothingLeft
  /\ phase' = "done" /\ rc' = 0
  /\ got' = [i \in 1..N |-> LastOf(i)]
  /\ UNCHANGED <<case, toks, mode, pos, binds>>

Next == Split \/ BindOne \/ Refuse \/ Start
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
Done == phase = "done"
Accepted == Done /\ rc = 0
RECURSIVE Used(_)
Used(b) == IF b = <<>> THEN 0 ELSE b[Len(b)].n + Used(SubSeq(b, 1, Len(b) - 1))
\* every word is part of exactly one binding, or the call is refused
NothingLost == Accepted => (Used(binds) = Len(toks) \/ (Used(binds) = Len(toks) - 1 /\ toks[Len(toks)] = W("")))
Consecutive == \A i \in 1..Len(binds) - 1 : binds[i + 1].from = binds[i].from + binds[i].n
\* an argument has its value from a word, or its default
FromWordOrDefault ==
  Accepted => \A i \in 1..N :
    \/ got[i] = case.decl[i].def /\ \A j \in 1..Len(binds) : binds[j].arg # i
    \/ \E j \in 1..Len(binds) : binds[j].arg = i /\ binds[j].val = got[i] /\ \A k \in j + 1..Len(binds) : binds[k].arg # i
\* the three notations agree: by position the k-th word is the k-th argument
ByPosition == (Accepted /\ mode = "pos") => \A i \in 1..Len(binds) : binds[i].arg = i /\ got[i] = toks[i].s
NoArgsNoWords == (Accepted /\ N = 0) => \A i \in 1..Len(binds) : binds[i].arg = 0
Finishes == <>Done
=============================================================================
