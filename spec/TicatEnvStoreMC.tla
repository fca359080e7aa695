-------------------------- MODULE TicatEnvStoreMC --------------------------
(* Cases for TicatEnvStore: read from cases.json, or enumerated.            *)
EXTENDS TicatEnvStore, Json
CONSTANT Family

Defaults == ("display.sensitive" :> "false")
NK == [env |-> <<>>, ok |-> FALSE]
B == [op |-> "begin", env |-> <<>>]
E == [op |-> "end"]
Kv(k, v) == [k |-> k, v |-> v, del |-> FALSE]
Obs == NK @@ [op |-> "run", eff |-> <<>>, fail |-> FALSE]
Ops ==
  { NK @@ [op |-> "set", k |-> "k1", v |-> "a"], NK @@ [op |-> "add", k |-> "k1", v |-> "b"],
    NK @@ [op |-> "update", k |-> "k1", v |-> "c"], NK @@ [op |-> "map", k |-> "k1", k2 |-> "k2"],
    NK @@ [op |-> "rm", k |-> "k1"], NK @@ [op |-> "reset", ex |-> <<>>], NK @@ [op |-> "reset", ex |-> <<"k1">>],
    NK @@ [op |-> "save"], NK @@ [op |-> "clear"],
    NK @@ [op |-> "ssave", n |-> "s", ow |-> TRUE], NK @@ [op |-> "ssave", n |-> "s", ow |-> FALSE],
    NK @@ [op |-> "sload", n |-> "s"], NK @@ [op |-> "sloadn", n |-> "s"], NK @@ [op |-> "srm", n |-> "s"],
    [env |-> <<Kv("k1", "d")>>, ok |-> FALSE, op |-> "save"],
    NK @@ [op |-> "run", eff |-> <<Kv("k1", "p")>>, fail |-> FALSE] }
Firsts == { NK @@ [op |-> "set", k |-> "k1", v |-> "a"], NK @@ [op |-> "set", k |-> "k2", v |-> "a"] }
Seconds == { NK @@ [op |-> "save"], NK @@ [op |-> "ssave", n |-> "s", ow |-> TRUE] }
\* set, store, then two operations in the same or a later invocation, another invocation looks
GenCases ==
  { [id |-> 0, steps |-> <<B, f, s>> \o br \o <<x, Obs, y, Obs, E, B, Obs, E>>] :
     <<f, s, br, x, y>> \in Firsts \X Seconds \X {<<>>, <<E, B>>} \X Ops \X Ops }

TheCases == IF Family = "json" THEN Range(JsonDeserialize("cases.json")) ELSE GenCases
Emit == AllDone => PrintT(ToJson([id |-> hist.id, case |-> IF Family = "json" THEN <<>> ELSE hist, obs |-> obs]))
=============================================================================
