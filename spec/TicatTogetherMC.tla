-------------------------- MODULE TicatTogetherMC --------------------------
EXTENDS TicatTogether, Json
CONSTANT Family
O(op, f, g, c, over) == [op |-> op, f |-> f, g |-> g, c |-> c, over |-> over]
P(f, v) == O("put", f, "", IF f \in Flows THEN <<v, "">> ELSE <<v>>, TRUE)
EnvOps(v) == {P("env", v), O("del", "env", "", <<>>, TRUE), O("see", "env", "", <<>>, TRUE)}
SnapOps(v) == {P("s1", v), O("put", "s1", "", <<v>>, FALSE), O("del", "s1", "", <<>>, TRUE), O("see", "s1", "", <<>>, TRUE)}
FlowOps(v) == {P("fa", v), P("fb", v), O("del", "fa", "", <<>>, TRUE), O("move", "fa", "fb", <<>>, TRUE), O("help", "fa", "", <<v>>, TRUE),
               O("clear", "", "", <<>>, TRUE), O("see", "fa", "", <<>>, TRUE)}
HubOps == {O(x, "hub", "", <<d>>, TRUE) : x \in {"addl", "dis", "en", "purge"}, d \in {"d1", "d2"}}
Starts == {<<>>, <<P("env", "v9"), P("s1", "v9"), P("fa", "v9"), P("fb", "v8"), O("addl", "hub", "", <<"d1">>, TRUE), O("dis", "hub", "", <<"d1">>, TRUE)>>}
Pairs == UNION {{<<a, b>> : a \in X[1], b \in X[2]} : X \in {<<EnvOps("v1"), EnvOps("v2")>>, <<SnapOps("v1"), SnapOps("v2")>>, <<FlowOps("v1"), FlowOps("v2")>>, <<HubOps, HubOps>>,
                                                             <<EnvOps("v1"), FlowOps("v2")>>}}
GenCases == {[id |-> 1, setup |-> s, ops |-> p] : s \in Starts, p \in Pairs \cup {<<p[1]>> : p \in Pairs}}
TheCases == IF Family = "json" THEN {c : c \in LET s == JsonDeserialize("cases.json") IN {s[x] : x \in DOMAIN s}} ELSE GenCases
Emit == AllOver => PrintT(ToJson([id |-> case.id, case |-> IF Family = "json" THEN <<>> ELSE case,
                                  obs |-> [ends |-> [i \in Procs |-> st[i].end], saws |-> [i \in Procs |-> st[i].saw], files |-> files]]))
=============================================================================
