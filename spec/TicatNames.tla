----------------------------- MODULE TicatNames -----------------------------
(***************************************************************************)
(* Names: how modules become a tree of commands with abbreviations, and    *)
(* how the words of a call find a command, its env values and arguments.   *)
(*                                                                         *)
(* A module: [id, src, path, abbrs (per level of its path), kind, env]     *)
(*   kind: file, flow, dir (a folder with a meta file, not executable),    *)
(*         meta (only a meta file, nothing to run: others may replace it)    *)
(*         bad (an error in its meta file), gone (its program is missing), *)
(*         junk (no module at all, or one nobody calls)                      *)
(*   env: the keys it declares, each a sequence of [n, ab]                 *)
(* A call: a sequence of tokens [t, w, kv]: "name" w, "sep" or "env" kv;   *)
(* words which cannot be names are arguments.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

CONSTANT Cases
VARIABLES C, loaded, reg, calls, phase, sess, out, rc
vars == <<C, loaded, reg, calls, phase, sess, out, rc>>

\* ---- the registry: nodes (paths), ab: [p, a, n], cmd: [p, id, kind],
\*      ek: declared env keys (paths), eab: [p, a, n]
NoReg == [nodes |-> {<<>>}, ab |-> {}, cmd |-> {}, ek |-> {<<>>}, eab |-> {}, half |-> {}]
Real(r, p, w) ==
  IF \E x \in r.ab : x.p = p /\ x.a = w THEN Append(p, (CHOOSE x \in r.ab : x.p = p /\ x.a = w).n)
  ELSE Append(p, w)
Find(r, p, w) == LET q == Real(r, p, w) IN IF q \in r.nodes THEN q ELSE <<"?">>
CmdAt(r, p) == {x \in r.cmd : x.p = p}
RealPath(r, path) == FoldLeft(LAMBDA p, w : Real(r, p, w), <<>>, path)
PathPre(p) == {SubSeq(p, 1, i) : i \in 0..Len(p)}

\* registering one abbreviation: 1 done, 0 taken by another
AbbrFree(r, p, a, n) == /\ \A x \in r.ab : (x.p = p /\ x.a = a) => x.n = n
                        /\ Append(p, a) \in r.nodes => a = n
AddNodes(r, q) == [r EXCEPT !.nodes = @ \cup PathPre(q)]
\* a path is free for a module's command, commands under it are no obstacle
Free(r, q, m) == \A x \in CmdAt(r, q) : x.kind = "meta"
EnvDecl(r, key) ==
  [r EXCEPT !.ek = @ \cup {[i \in 1..j |-> key[i].n] : j \in 1..Len(key)},
            !.eab = @ \cup UNION {{[p |-> [i \in 1..(j-1) |-> key[i].n], a |-> a, n |-> key[j].n] : a \in Range(key[j].ab)} : j \in 1..Len(key)}]
\* abbreviations level by level; stops at the first which is taken
AddAbbrs(r, m, q) ==
  LET todo == FlattenSeq([i \in 1..Len(m.abbrs) |-> [j \in 1..Len(m.abbrs[i]) |-> [p |-> SubSeq(q, 1, i - 1), a |-> m.abbrs[i][j], n |-> q[i]]]])
  IN FoldLeft(LAMBDA acc, x : IF ~acc.ok THEN acc
                              ELSE IF AbbrFree(acc.r, x.p, x.a, x.n) THEN [acc EXCEPT !.r.ab = @ \cup (IF x.a = x.n THEN {} ELSE {x})]
                              ELSE [acc EXCEPT !.ok = FALSE],
              [r |-> r, ok |-> TRUE], todo)
Register(r, m) ==
  LET q == RealPath(r, m.path)
      r1 == AddNodes(r, q)
  IN IF m.kind = "junk" THEN r
     ELSE IF m.kind = "gone" THEN r1
     ELSE IF m.kind = "dir" /\ CmdAt(r1, q) # {} THEN AddAbbrs(r1, m, q).r
     ELSE IF m.kind # "dir" /\ ~Free(r1, q, m) THEN r1
     ELSE LET r2 == [r1 EXCEPT !.cmd = {x \in @ : x.p # q} \cup {[p |-> q, id |-> m.id, kind |-> m.kind]}]
              a == AddAbbrs(r2, m, q)
          IN IF ~a.ok \/ m.kind = "bad" THEN [a.r EXCEPT !.half = @ \cup {q}]
             ELSE FoldLeft(EnvDecl, a.r, m.env)

\* ---- calls
EnvFind(r, p, w) == IF \E x \in r.eab : x.p = p /\ x.a = w THEN Append(p, (CHOOSE x \in r.eab : x.p = p /\ x.a = w).n) ELSE Append(p, w)
\* the key under which a value is stored: abbreviations are replaced if all of the key is known
EnvKey(r, path, key) ==
  LET res == FoldLeft(LAMBDA p, w : EnvFind(r, p, w), path, key)
      known == path \in r.ek /\ \A i \in 1..Len(key) : SubSeq(res, 1, Len(path) + i) \in r.ek
  IN IF known THEN res ELSE path \o key

\* saved keys are known too, up to a segment which is an abbreviation of another one
KnowSaved(r, key) ==
  FoldLeft(LAMBDA a, w : IF a.stop \/ \E x \in r.eab : x.p = a.p /\ x.a = w /\ x.n # w THEN [a EXCEPT !.stop = TRUE]
                         ELSE [stop |-> FALSE, p |-> Append(a.p, w), r |-> [a.r EXCEPT !.ek = @ \cup {Append(a.p, w)}]],
           [stop |-> FALSE, p |-> <<>>, r |-> r], key).r
Known(r) == FoldLeft(KnowSaved, r, C.keys)

ArgNames == {"x", "xx"}
P0 == [p |-> <<>>, sub |-> TRUE, env |-> <<>>, args |-> <<>>, ok |-> TRUE, fin |-> FALSE, half |-> FALSE]
HasArgs(r, p) == \E c \in CmdAt(r, p) : c.kind \notin {"dir", "meta"}
IsCmd(r, p) == CmdAt(r, p) # {}
Put(e, k, v) == SelectSeq(e, LAMBDA x : x.k # k) \o <<[k |-> k, v |-> v]>>
Step(r, s, t) ==
  IF ~s.ok THEN s
  ELSE IF s.fin THEN [s EXCEPT !.ok = FALSE]   \* nothing follows the arguments
  ELSE CASE t.t = "sep" -> [s EXCEPT !.sub = TRUE]
         [] t.t = "env" ->
              IF IsCmd(r, s.p)
              THEN IF \A kv \in Range(t.kv) : HasArgs(r, s.p) /\ Len(kv.k) = 1 /\ kv.k[1] \in ArgNames
                   THEN [s EXCEPT !.sub = TRUE, !.args = IF t.kv = <<>> THEN @ ELSE <<t.kv[Len(t.kv)].v>>]
                   ELSE [s EXCEPT !.ok = FALSE]
              ELSE [s EXCEPT !.sub = TRUE, !.env = FoldLeft(LAMBDA e, kv : Put(e, EnvKey(r, s.p, kv.k), kv.v), @, t.kv)]
         [] OTHER ->
              IF s.sub
              THEN LET q == Find(r, s.p, t.w) IN
                   IF q = <<"?">> THEN [s EXCEPT !.ok = FALSE]
                   ELSE [s EXCEPT !.p = q, !.sub = FALSE, !.args = <<>>, !.half = @ \/ q \in r.half]
              ELSE IF HasArgs(r, s.p) THEN [s EXCEPT !.args = <<t.w>>, !.fin = TRUE]
              ELSE [s EXCEPT !.ok = FALSE]
Resolve(r, toks) == FoldLeft(LAMBDA s, t : Step(r, s, t), P0, toks)

\* ---- what an invocation does
Init ==
  /\ C \in Cases
  /\ loaded = 0 /\ reg = NoReg /\ calls = <<>> /\ phase = "load" /\ sess = <<>> /\ out = <<>> /\ rc = 1000
Load ==
  /\ phase = "load" /\ loaded < Len(C.mods)
  /\ reg' = Register(reg, C.mods[loaded + 1]) /\ loaded' = loaded + 1
  /\ UNCHANGED <<C, calls, phase, sess, out, rc>>
ParseCall ==
  /\ phase = "load" /\ loaded = Len(C.mods) /\ Len(calls) < Len(C.calls)
  /\ calls' = Append(calls, Resolve(Known(reg), C.calls[Len(calls) + 1]))
  /\ UNCHANGED <<C, loaded, reg, phase, sess, out, rc>>
Check ==
  /\ phase = "load" /\ loaded = Len(C.mods) /\ Len(calls) = Len(C.calls)
  /\ IF \A i \in DOMAIN calls : calls[i].ok
     THEN phase' = "run" /\ sess' = (IF C.global THEN calls[1].env ELSE <<>>) /\ rc' = rc
     ELSE phase' = "done" /\ rc' = 1 /\ sess' = sess
  /\ UNCHANGED <<C, loaded, reg, calls, out>>
Over(a, b) == FoldLeft(LAMBDA e, kv : Put(e, kv.k, kv.v), a, b)
Val(e, k) == IF \E i \in DOMAIN e : e[i].k = k THEN (CHOOSE x \in Range(e) : x.k = k).v ELSE "-"
RunCall ==
  /\ phase = "run" /\ calls # <<>>
  /\ LET c == Head(calls)
         m == CmdAt(reg, c.p)
         arg == IF c.args = <<>> THEN "d" ELSE c.args[1]
     IN out' = out \o (IF m = {} \/ \E x \in m : x.kind \in {"dir", "meta"} THEN <<>>
                       ELSE LET x == CHOOSE x \in m : TRUE
                                e == IF x.kind = "flow" THEN Over(sess, c.env) ELSE sess
                            IN <<[id |-> x.id, arg |-> arg, env |-> [i \in DOMAIN C.keys |-> Val(e, C.keys[i])]]>>)
  /\ calls' = Tail(calls)
  /\ UNCHANGED <<C, loaded, reg, phase, sess, rc>>
End ==
  /\ phase = "run" /\ calls = <<>>
  /\ phase' = "done" /\ rc' = 0
  /\ UNCHANGED <<C, loaded, reg, calls, sess, out>>
Next == Load \/ ParseCall \/ Check \/ RunCall \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* a call of a module whose registration was broken off is unspecified
Unspecified == \E i \in 1..Len(C.calls) : Resolve(reg, C.calls[i]).half
--------------------------------------------------------------------------
\* every name and abbreviation leads to one command
Unambiguous == \A x, y \in reg.ab : (x.p = y.p /\ x.a = y.a) => x.n = y.n
OneCmd == \A x, y \in reg.cmd : x.p = y.p => x = y
\* a module once available stays so, whatever is loaded later
Stays == [][\A x \in reg.cmd : x.kind # "meta" => x \in reg'.cmd]_reg
NamesStay == [][reg.nodes \subseteq reg'.nodes /\ reg.ab \subseteq reg'.ab]_reg
\* how a path is spelled makes no difference
Canon(toks) ==
  LET f == FoldLeft(LAMBDA a, t : IF t.t = "name" /\ a.s.sub /\ a.s.ok
                                   THEN LET q == Find(reg, a.s.p, t.w) IN
                                        [s |-> Step(reg, a.s, t), o |-> Append(a.o, [t EXCEPT !.w = IF q = <<"?">> THEN t.w ELSE q[Len(q)]])]
                                   ELSE IF t.t = "sep" /\ a.s.sub THEN a
                                   ELSE [s |-> Step(reg, a.s, t), o |-> Append(a.o, t)],
                    [s |-> P0, o |-> <<>>], toks)
  IN f.o
SpellingIrrelevant == phase = "run" => \A i \in 1..Len(C.calls) : Resolve(reg, Canon(C.calls[i])) = Resolve(reg, C.calls[i])
RefusedRunsNothing == (phase = "done" /\ rc # 0) => out = <<>>
Ends == <>(phase = "done")
=============================================================================
