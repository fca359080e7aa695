------------------------------ MODULE TicatEnv ------------------------------
(***************************************************************************)
(* The layered environment of ticat.                                       *)
(*                                                                         *)
(* A stack of layers, bottom first.  Every layer maps keys to values and   *)
(* remembers which of its keys are command arguments.  Layer kinds:        *)
(*   "base"    - defaults and values persisted by earlier `env.save`s      *)
(*   "session" - the values all commands of one invocation share           *)
(*   "cmd"     - what one call adds ({k=v} next to the call, arguments)    *)
(*   "sub"     - what one flow adds ({k=v} in front of its first command)  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

EmptyKV == [x \in {} |-> ""]
Layer(ty, kv, args) == [ty |-> ty, kv |-> kv, args |-> args]

RECURSIVE TopHolding(_, _, _)
\* index of the innermost layer at or below i that holds k, 0 when none does
TopHolding(env, i, k) ==
  IF i = 0 THEN 0
  ELSE IF k \in DOMAIN env[i].kv THEN i
  ELSE TopHolding(env, i - 1, k)

HasAt(env, i, k) == TopHolding(env, i, k) # 0
GetAt(env, i, k) == LET h == TopHolding(env, i, k) IN IF h = 0 THEN "" ELSE env[h].kv[k]
Has(env, k) == HasAt(env, Len(env), k)
Get(env, k) == GetAt(env, Len(env), k)

RECURSIVE InnermostOf(_, _, _)
InnermostOf(env, i, tys) ==
  IF i = 0 THEN 0 ELSE IF env[i].ty \in tys THEN i ELSE InnermostOf(env, i - 1, tys)
SessionIdx(env) == InnermostOf(env, Len(env), {"session"})

\* A value equal to the one already visible is not stored again.
SetAt(env, i, k, v) ==
  IF HasAt(env, i, k) /\ GetAt(env, i, k) = v THEN env
  ELSE [env EXCEPT ![i] = [@ EXCEPT !.kv = (k :> v) @@ @, !.args = @ \ {k}]]
SetArgAt(env, i, k, v) ==
  IF HasAt(env, i, k) /\ GetAt(env, i, k) = v THEN env
  ELSE [env EXCEPT ![i] = [@ EXCEPT !.kv = (k :> v) @@ @, !.args = @ \cup {k}]]

DropKey(kv, k) == [x \in DOMAIN kv \ {k} |-> kv[x]]
\* A deletion removes the key from the given layer and everything below it.
DelAt(env, i, k) ==
  [j \in 1..Len(env) |-> IF j <= i THEN [env[j] EXCEPT !.kv = DropKey(@, k)] ELSE env[j]]

Push(env, ty) == Append(env, Layer(ty, EmptyKV, {}))
Pop(env) == SubSeq(env, 1, Len(env) - 1)

ABSENT == "\\-"
\* What a program started by ticat finds in the session's env file.
SessionView(env, keys) ==
  LET i == SessionIdx(env) IN [k \in keys |-> IF HasAt(env, i, k) THEN GetAt(env, i, k) ELSE ABSENT]
\* What is recorded as the env of a call: innermost value which is not an argument.
RECURSIVE NonArgFrom(_, _, _)
NonArgFrom(env, i, k) ==
  IF i = 0 THEN ABSENT
  ELSE IF k \in DOMAIN env[i].kv /\ k \notin env[i].args THEN env[i].kv[k]
  ELSE NonArgFrom(env, i - 1, k)
CallView(env, keys) == [k \in keys |-> NonArgFrom(env, Len(env), k)]
=============================================================================
