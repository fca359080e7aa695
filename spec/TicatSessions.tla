---------------------------- MODULE TicatSessions ----------------------------
(***************************************************************************)
(* The records of sessions: what creates, shows, expires and removes them. *)
(*                                                                         *)
(* A case is a list of operations (ops) done one after the other on a      *)
(* fresh store:                                                            *)
(*   run     seq: the commands, each of a kind                             *)
(*             ok / fail / crash (kills ticat) / hid (not shown as last) / *)
(*             need (refused by the env check) / nos (has no session) /    *)
(*             none (no such command) / last (sessions.last) /             *)
(*             keep (set the keeping duration to `h`, save the env)        *)
(*           text: the sequence as written; live: ticat is still running   *)
(*   list    kind (all/done/error/running), find, max (0: no limit)        *)
(*   last                                                                  *)
(*   status  n: of the n-th record ever made                               *)
(*   rm      n, force       rmfind  find, force        rmall               *)
(*   pass    h hours        die     n: its process ends                    *)
(*   half    ticat got killed while it made the record, which is there but *)
(*           says nothing (void), or nothing of what was to run            *)
(* `find` is a list of [s |-> a text, n |-> 0] or [s |-> "", n |-> the     *)
(* record whose name is searched for].                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Cases

VARIABLES case,   \* the operations
          i,      \* how many are done
          recs,   \* record number -> [age, live, res, cmds, hid, text]
          made,   \* records ever made
          keep,   \* hours
          log     \* what each operation showed and left
svars == <<case, i, recs, made, keep, log>>

KEEP == 2400

Contains(s, f) == \E a \in 1..(Len(s) - Len(f) + 1) : SubSeq(s, a, a + Len(f) - 1) = f
Sorted(S) == LET RECURSIVE F(_)
                 F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o F(T \ {m})
             IN F(S)
Last(s) == s[Len(s)]
NewestOf(s, n) == IF n = 0 \/ Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))

Matches(n, find) == \A f \in {find[x] : x \in DOMAIN find} : IF f.n # 0 THEN f.n = n ELSE Contains(recs[n].text, f.s)
State(n) == IF recs[n].live THEN "running" ELSE IF recs[n].res = "ok" THEN "ok" ELSE "failed"
Shows(kind) == CASE kind = "all" -> {"running", "ok", "failed"} [] kind = "done" -> {"ok"}
                 [] kind = "error" -> {"failed"} [] kind = "running" -> {"running"}
Listed(kind, find, max) == NewestOf(Sorted({n \in DOMAIN recs : recs[n].res # "void" /\ State(n) \in Shows(kind) /\ Matches(n, find)}), max)
View(s) == [x \in DOMAIN s |-> [n |-> s[x], st |-> State(s[x])]]

LastOf(R) == LET c == {n \in R : recs[n].cmds > 0 /\ ~recs[n].hid} IN IF c = {} THEN <<>> ELSE <<CHOOSE n \in c : \A m \in c : m <= n>>

Expired(n) == ~recs[n].live /\ recs[n].age >= keep
Readable == {n \in DOMAIN recs : recs[n].res # "void"}
Without(R) == [n \in DOMAIN recs \ R |-> recs[n]]

--------------------------------------------------------------------------
\* the sequence as it gets run: up to the first failure
RanOf(seq) == LET bad == {x \in DOMAIN seq : seq[x].k \in {"fail", "crash"}}
              IN IF bad = {} THEN Len(seq) ELSE CHOOSE x \in bad : \A y \in bad : x <= y
Unknown(seq) == \E x \in DOMAIN seq : seq[x].k = "none"
HasSession(seq) == \E x \in DOMAIN seq : seq[x].k # "nos"
Refused(seq) == \E x \in DOMAIN seq : seq[x].k = "need"
ResOf(seq) == IF Refused(seq) THEN "failed"
              ELSE IF seq[RanOf(seq)].k = "fail" THEN "failed" ELSE IF seq[RanOf(seq)].k = "crash" THEN "crash" ELSE "ok"
KeepOf(seq) == LET RECURSIVE F(_, _)
                   F(x, k) == IF x > RanOf(seq) THEN k ELSE F(x + 1, IF seq[x].k = "keep" THEN seq[x].h ELSE k)
               IN IF Refused(seq) THEN keep ELSE F(1, keep)

\* what `sessions.last` calls in the sequence showed
LastsOf(seq) == IF Refused(seq) THEN <<>>
                ELSE LET RECURSIVE F(_)
                         F(x) == IF x > RanOf(seq) THEN <<>>
                                 ELSE (IF seq[x].k = "last" THEN View(LastOf(DOMAIN recs \ {n \in DOMAIN recs : Expired(n)})) ELSE <<>>) \o F(x + 1)
                     IN F(1)

Done(o, r, k, shown, rc, m) ==
  /\ i' = i + 1 /\ recs' = r /\ keep' = k /\ made' = m /\ UNCHANGED case
  /\ log' = Append(log, [op |-> o.op, shown |-> shown, rc |-> rc, left |-> Sorted(DOMAIN r)])

Run(o) ==
  LET seq == o.seq
      rec == [age |-> 0, live |-> o.live, res |-> ResOf(seq), cmds |-> IF Refused(seq) THEN 0 ELSE RanOf(seq),
              hid |-> ~Refused(seq) /\ seq[RanOf(seq)].k = "hid", text |-> o.text]
      old == {n \in DOMAIN recs : Expired(n)}
  IN IF Unknown(seq) THEN Done(o, recs, keep, <<>>, 1, made)
     ELSE IF ~HasSession(seq) THEN Done(o, recs, keep, <<>>, 0, made)
     ELSE Done(o, [n \in (DOMAIN recs \ old) \cup {made + 1} |-> IF n = made + 1 THEN rec ELSE recs[n]], KeepOf(seq), LastsOf(seq),
               IF rec.res = "ok" THEN 0 ELSE IF rec.res = "crash" THEN 137 ELSE 1, made + 1)

Gone(R, force) == {n \in R : force \/ ~recs[n].live}
Step(o) ==
  CASE o.op = "run" -> Run(o)
    [] o.op = "list" -> Done(o, recs, keep, View(Listed(o.kind, o.find, o.max)), 0, made)
    [] o.op = "last" -> Done(o, recs, keep, View(LastOf(DOMAIN recs)), 0, made)
    [] o.op = "status" -> Done(o, recs, keep, View(Sorted({o.n} \cap Readable)), 0, made)
    [] o.op = "rm" -> LET R == {o.n} \cap Readable IN Done(o, Without(Gone(R, o.force)), keep, View(Sorted(R)), 0, made)
    [] o.op = "rmfind" -> LET s == Listed("all", o.find, 0) R == {s[x] : x \in DOMAIN s}
                          IN Done(o, Without(Gone(R, o.force)), keep, View(s), 0, made)
    [] o.op = "rmall" -> Done(o, Without(Gone(DOMAIN recs, FALSE)), keep, <<>>, 0, made)
    [] o.op = "pass" -> Done(o, [n \in DOMAIN recs |-> [recs[n] EXCEPT !.age = @ + o.h]], keep, <<>>, 0, made)
    [] o.op = "half" -> Done(o, [n \in DOMAIN recs \cup {made + 1} |-> IF n \in DOMAIN recs THEN recs[n]
                                 ELSE [age |-> 0, live |-> FALSE, res |-> IF o.void THEN "void" ELSE "crash", cmds |-> 0, hid |-> FALSE, text |-> ""]],
                             keep, <<>>, 0, made + 1)
    [] o.op = "die" -> Done(o, [n \in DOMAIN recs |-> IF n = o.n THEN [recs[n] EXCEPT !.live = FALSE] ELSE recs[n]], keep, <<>>, 0, made)

Init == case \in Cases /\ i = 0 /\ recs = <<>> /\ made = 0 /\ keep = KEEP /\ log = <<>>
Next == i < Len(case.ops) /\ Step(case.ops[i + 1])
Spec == Init /\ [][Next]_svars /\ WF_svars(Next)
Over == i = Len(case.ops)

--------------------------------------------------------------------------
Lost == DOMAIN recs \ DOMAIN recs'
Doing == case.ops[i + 1]
\* a record gets lost only by expiry, or by a removal which names it
LostByRight == [][\A n \in Lost : \/ Doing.op = "run" /\ Expired(n)
                                  \/ Doing.op = "rm" /\ Doing.n = n
                                  \/ Doing.op = "rmfind" /\ Matches(n, Doing.find)
                                  \/ Doing.op = "rmall"]_svars
\* running sessions stay but for forced removals
RunningStay == [][\A n \in Lost : recs[n].live => Doing.op \in {"rm", "rmfind"} /\ Doing.force]_svars
\* nothing else makes records, each run at most one
OneEach == [][DOMAIN recs' \ DOMAIN recs \subseteq (IF Doing.op \in {"run", "half"} THEN {made + 1} ELSE {})]_svars
\* what a record says never changes, but it grows older and its process ends
Stable == [][\A n \in DOMAIN recs \cap DOMAIN recs' :
               /\ [recs[n] EXCEPT !.age = 0, !.live = FALSE] = [recs'[n] EXCEPT !.age = 0, !.live = FALSE]
               /\ recs[n].age <= recs'[n].age
               /\ recs'[n].live => recs[n].live]_svars
\* the lists by outcome make up the whole list
ByOutcome == LET ids(k) == {Listed(k, <<>>, 0)[x] : x \in DOMAIN Listed(k, <<>>, 0)}
             IN /\ ids("done") \cup ids("error") \cup ids("running") = Readable
                /\ ids("done") \cap ids("error") = {} /\ ids("done") \cap ids("running") = {} /\ ids("error") \cap ids("running") = {}
=============================================================================
