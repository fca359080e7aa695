--------------------------- MODULE TicatEnvStore ---------------------------
(***************************************************************************)
(* Histories of ticat invocations over the stored env: the values saved by *)
(* env.save, the named snapshots, and the env of each running session as   *)
(* ticat's own env commands and installed programs change it.              *)
(*                                                                         *)
(* A case is [steps : sequence of steps, names : observed snapshots].  A   *)
(* step is a record with op and the fields that op needs:                  *)
(*   begin  [env]          a new invocation, its leading {k=v}             *)
(*   enter  [env, genv]    a call of a flow (closed by leave)              *)
(*   leave                                                                 *)
(*   end                   the invocation is over                          *)
(* all others are calls [env, ok]:                                         *)
(*   set/add/update [k, v]   map [k, k2]   rm [k]   rmpre [p]   reset [ex] *)
(*   eq [k, v]   nex [k]   save   clear                                    *)
(*   ssave [n, ow]   sload [n]   sloadn [n]   srm [n]                      *)
(*   run [eff, fail]       a program                                       *)
(***************************************************************************)
EXTENDS TicatEnv, SequencesExt, FiniteSetsExt

CONSTANTS Cases, KEYS, DEFAULTS  \* DEFAULTS: function of the keys which have built-in values

VARIABLES hist, pc, env, saved, snaps, obs, live

vars == <<hist, pc, env, saved, snaps, obs, live>>

S == hist.steps
Cur == S[pc]
NOFILE == [x \in {} |-> ""]

RECURSIVE ApplyKVs(_, _, _, _)
ApplyKVs(e, i, kvs, n) ==
  IF n > Len(kvs) THEN e
  ELSE ApplyKVs(IF kvs[n].del THEN DelAt(e, i, kvs[n].k) ELSE SetAt(e, i, kvs[n].k, kvs[n].v), i, kvs, n + 1)

\* a removal on demand spares the built-in values
DelStored(e, k) == [j \in 1..Len(e) |-> IF j = 1 THEN e[j] ELSE [e[j] EXCEPT !.kv = DropKey(@, k)]]
RECURSIVE DelStoredAll(_, _)
DelStoredAll(e, ks) == IF ks = {} THEN e ELSE LET k == CHOOSE k \in ks : TRUE IN DelStoredAll(DelStored(e, k), ks \ {k})

Visible(e) == UNION {DOMAIN e[i].kv : i \in 1..Len(e)}
DefaultOf(k) == IF k \in DOMAIN DEFAULTS THEN DEFAULTS[k] ELSE ""
\* what a save writes: every visible value which is not the one a fresh session has anyway
\* (no value and an empty value are the same here)
Flatten(e) == [k \in {x \in Visible(e) : Get(e, x) # (IF x \in DOMAIN e[1].kv THEN e[1].kv[x] ELSE "")} |-> Get(e, k)]

\* 1 default, 2 saved, 3 session
FreshEnv == << Layer("default", DEFAULTS, {}), Layer("saved", saved, {}), Layer("session", EmptyKV, {}) >>
SI == SessionIdx(env)

View(e) == [k \in KEYS |-> IF HasAt(e, SessionIdx(e), k) THEN GetAt(e, SessionIdx(e), k) ELSE ABSENT]

Note(o) == obs' = Append(obs, o)
StoreNow(sv, sn) ==
  [saved |-> [k \in KEYS |-> IF k \in DOMAIN sv THEN sv[k] ELSE ABSENT],
   snaps |-> [n \in DOMAIN sn |-> [k \in KEYS |-> IF k \in DOMAIN sn[n] THEN sn[n][k] ELSE ABSENT]]]
Ended(code) == [e |-> "end", rc |-> code, store |-> StoreNow(saved, snaps)]

InitFor(c) ==
  /\ hist = c /\ pc = 1 /\ env = <<>> /\ saved = NOFILE /\ snaps = [n \in {} |-> NOFILE]
  /\ obs = <<>> /\ live = FALSE
Init == \E c \in Cases : InitFor(c)

Begin ==
  /\ pc <= Len(S) /\ Cur.op = "begin"
  /\ env' = ApplyKVs(FreshEnv, 3, Cur.env, 1)
  /\ live' = TRUE /\ pc' = pc + 1
  /\ UNCHANGED <<hist, saved, snaps, obs>>

End ==
  /\ pc <= Len(S) /\ Cur.op = "end"
  /\ IF live THEN Note(Ended(0)) ELSE UNCHANGED obs
  /\ env' = <<>> /\ live' = FALSE /\ pc' = pc + 1
  /\ UNCHANGED <<hist, saved, snaps>>

\* steps of an invocation which is over already
Skip ==
  /\ pc <= Len(S) /\ ~live /\ Cur.op \notin {"begin", "end"}
  /\ pc' = pc + 1 /\ UNCHANGED <<hist, env, saved, snaps, obs, live>>

Enter ==
  /\ live /\ pc <= Len(S) /\ Cur.op = "enter"
  /\ LET e1 == ApplyKVs(Push(env, "cmd"), Len(env) + 1, Cur.env, 1)
     IN env' = ApplyKVs(Push(e1, "sub"), Len(e1) + 1, Cur.genv, 1)
  /\ pc' = pc + 1 /\ UNCHANGED <<hist, saved, snaps, obs, live>>
Leave ==
  /\ live /\ pc <= Len(S) /\ Cur.op = "leave"
  /\ env' = SubSeq(env, 1, Len(env) - 2)
  /\ pc' = pc + 1 /\ UNCHANGED <<hist, saved, snaps, obs, live>>

\* the env during the call; its layer goes away with it
In == ApplyKVs(Push(env, "cmd"), Len(env) + 1, Cur.env, 1)
Calls(ops) == live /\ pc <= Len(S) /\ Cur.op \in ops
Done(e) == env' = Pop(e) /\ pc' = pc + 1 /\ UNCHANGED <<hist, live>>
\* the call fails: tolerated, or the end of the invocation
Fails(code) ==
  /\ UNCHANGED <<hist, saved, snaps>>
  /\ IF Cur.ok THEN env' = Pop(In) /\ pc' = pc + 1 /\ UNCHANGED <<obs, live>>
     ELSE Note(Ended(code)) /\ env' = <<>> /\ live' = FALSE /\ pc' = pc + 1

SetOp ==
  /\ Calls({"set", "add", "update"})
  /\ LET has == HasAt(In, SI, Cur.k)
     IN IF (Cur.op = "add" /\ has) \/ (Cur.op = "update" /\ ~has) THEN Fails(1)
        ELSE Done(SetAt(In, SI, Cur.k, Cur.v)) /\ UNCHANGED <<saved, snaps, obs>>
MapOp ==
  /\ Calls({"map"})
  /\ Done(SetAt(In, SI, Cur.k2, GetAt(In, SI, Cur.k))) /\ UNCHANGED <<saved, snaps, obs>>
RmOp ==
  /\ Calls({"rm"}) /\ Done(DelStored(In, Cur.k)) /\ UNCHANGED <<saved, snaps, obs>>
RmPre ==
  /\ Calls({"rmpre"})
  /\ Done(DelStoredAll(In, {k \in Visible(In) : IsPrefix(Cur.p, k)})) /\ UNCHANGED <<saved, snaps, obs>>
RECURSIVE SetBack(_, _, _, _)
SetBack(e, old, ex, n) ==
  IF n > Len(ex) THEN e ELSE SetBack(SetAt(e, SI, ex[n], Get(old, ex[n])), old, ex, n + 1)
ResetOp ==
  /\ Calls({"reset"})
  /\ Done(SetBack([In EXCEPT ![SI] = [@ EXCEPT !.kv = EmptyKV]], In, Cur.ex, 1))
  /\ UNCHANGED <<saved, snaps, obs>>
AssertOp ==
  /\ Calls({"eq", "nex"})
  /\ IF (Cur.op = "eq" /\ Get(In, Cur.k) # Cur.v) \/ (Cur.op = "nex" /\ Has(In, Cur.k)) THEN Fails(255)
     ELSE Done(In) /\ UNCHANGED <<saved, snaps, obs>>
SaveOp == /\ Calls({"save"}) /\ Done(In) /\ saved' = Flatten(In) /\ UNCHANGED <<snaps, obs>>
ClearOp == /\ Calls({"clear"}) /\ Done(In) /\ saved' = NOFILE /\ UNCHANGED <<snaps, obs>>
SSave ==
  /\ Calls({"ssave"})
  /\ IF ~Cur.ow /\ Cur.n \in DOMAIN snaps THEN Fails(255)
     ELSE Done(In) /\ snaps' = (Cur.n :> Flatten(In)) @@ snaps /\ UNCHANGED <<saved, obs>>
RECURSIVE SetAll(_, _, _)
SetAll(e, f, ks) ==
  IF ks = {} THEN e ELSE LET k == CHOOSE k \in ks : TRUE IN SetAll(SetAt(e, SI, k, f[k]), f, ks \ {k})
SLoad ==
  /\ Calls({"sload", "sloadn"})
  /\ LET f == IF Cur.n \in DOMAIN snaps THEN snaps[Cur.n] ELSE NOFILE
         ks == IF Cur.op = "sload" THEN DOMAIN f ELSE {k \in DOMAIN f : ~Has(In, k)}
     IN Done(SetAll(In, f, ks))
  /\ UNCHANGED <<saved, snaps, obs>>
SRm ==
  /\ Calls({"srm"}) /\ Done(In)
  /\ snaps' = [n \in DOMAIN snaps \ {Cur.n} |-> snaps[n]]
  /\ UNCHANGED <<saved, obs>>
Run ==
  /\ Calls({"run"})
  /\ UNCHANGED <<saved, snaps, hist>>
  /\ LET o == Append(obs, [e |-> "run", s |-> View(In)])
     IN IF Cur.fail /\ ~Cur.ok
        THEN /\ obs' = Append(o, Ended(255)) /\ env' = <<>> /\ live' = FALSE /\ pc' = pc + 1
        ELSE /\ obs' = o /\ env' = Pop(ApplyKVs(In, SI, Cur.eff, 1)) /\ pc' = pc + 1 /\ UNCHANGED live

Next ==
  \/ Begin \/ End \/ Skip \/ Enter \/ Leave \/ SetOp \/ MapOp \/ RmOp \/ RmPre \/ ResetOp \/ AssertOp
  \/ SaveOp \/ ClearOp \/ SSave \/ SLoad \/ SRm \/ Run
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllDone == pc > Len(S)
-----------------------------------------------------------------------------
(* Properties *)

\* only the commands that say so change what is stored
StoreChanges ==
  [][/\ saved' # saved => Cur.op \in {"save", "clear"}
     /\ snaps' # snaps => Cur.op \in {"ssave", "srm"}
     /\ \A n \in DOMAIN snaps \cup DOMAIN snaps' :
          (n \in DOMAIN snaps /\ n \in DOMAIN snaps' /\ snaps[n] = snaps'[n]) \/ Cur.n = n]_vars
\* a session sees what was saved unless it changed it itself
SavedIsSeen == [][Cur.op = "begin" /\ Cur.env = <<>> => \A k \in DOMAIN saved : Get(env', k) = saved[k]]_vars
\* saving is idempotent in what a following session sees
SaveThenSee ==
  [][Calls({"save"}) => \A k \in KEYS : Get(<<Layer("default", In[1].kv, {}), Layer("saved", saved', {})>>, k) = Get(In, k)]_vars
\* nothing of an invocation survives it but what it stored
NothingLeaks == ~live => env = <<>>
Layers == live => /\ Len(env) >= 3 /\ env[3].ty = "session" /\ Len(env) % 2 = 1
\* the saved values a session started from only get fewer while it runs
SavedLayerShrinks == [][live /\ live' => \A k \in DOMAIN env'[2].kv : k \in DOMAIN env[2].kv /\ env[2].kv[k] = env'[2].kv[k]]_vars
\* call-level values are gone after the call
CallScoped == [][live /\ live' /\ Cur.op \notin {"begin", "enter", "leave", "end"} =>
                 /\ Len(env') = Len(env)
                 /\ \A i \in 4..Len(env) : \A k \in DOMAIN env'[i].kv : k \in DOMAIN env[i].kv /\ env[i].kv[k] = env'[i].kv[k]]_vars
=============================================================================
