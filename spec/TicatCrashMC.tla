--------------------------- MODULE TicatCrashMC ---------------------------
EXTENDS TicatCrash, Json
CONSTANT Family
Hits == {"", "kill", "full"}
O(op, f, g, c, over, hit) == [op |-> op, f |-> f, g |-> g, c |-> c, over |-> over, hit |-> hit, look |-> TRUE]
Quiet(o) == [o EXCEPT !.hit = "", !.look = FALSE]
Ops(h) == {O("put", f, "", IF f \in Flows THEN <<v, "">> ELSE <<v>>, w, h) : f \in {"env", "s1", "fa"}, v \in {"v1", "v2"}, w \in {TRUE}}
          \cup {O("del", f, "", <<>>, TRUE, h) : f \in {"env", "s1", "fa"}}
          \cup {O("move", "fa", "fb", <<>>, TRUE, h), O("help", "fa", "", <<"h1">>, TRUE, h), O("clear", "", "", <<>>, TRUE, h)}
          \cup {O(x, "hub", "", <<"d1">>, TRUE, h) : x \in {"addl", "dis", "en", "purge"}}
Starts == {<<>>,
  <<Quiet(O("put", "env", "", <<"v9">>, TRUE, "")), Quiet(O("put", "s1", "", <<"v9">>, TRUE, "")),
    Quiet(O("put", "fa", "", <<"v9", "">>, TRUE, "")), Quiet(O("put", "fb", "", <<"v8", "">>, TRUE, "")),
    Quiet(O("addl", "hub", "", <<"d1">>, TRUE, "")), Quiet(O("addl", "hub", "", <<"d2">>, TRUE, ""))>>}
GenCases == {[id |-> 1, ops |-> s \o <<a, b>>] : s \in Starts, a \in Ops("kill") \cup Ops("full"), b \in Ops("") \cup Ops("kill")}
TheCases == IF Family = "json" THEN {c : c \in LET s == JsonDeserialize("cases.json") IN {s[x] : x \in DOMAIN s}} ELSE GenCases
Done == pc > Len(case.ops)
Emit == Done => PrintT(ToJson([id |-> case.id, case |-> IF Family = "json" THEN <<>> ELSE case, obs |-> log]))
=============================================================================
