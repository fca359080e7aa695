--------------------------- MODULE TicatSessionsMC ---------------------------
EXTENDS TicatSessions, Json
CONSTANT Family
K(k) == [k |-> k, h |-> 0]
T == [ok |-> "ca", fail |-> "cz", crash |-> "ck", hid |-> "ch", need |-> "cn", nos |-> "cs", none |-> "nosuch"]
Run1(k, live) == [op |-> "run", seq |-> <<K(k)>>, text |-> T[k], live |-> live]
Run2(k, l) == [op |-> "run", seq |-> <<K(k), K(l)>>, text |-> T[k] \o " : " \o T[l], live |-> FALSE]
Keep(h) == [op |-> "run", seq |-> <<[k |-> "keep", h |-> h]>>, text |-> "", live |-> FALSE]
Find(s) == [s |-> s, n |-> 0]
Name(n) == [s |-> "", n |-> n]
Lists == {[op |-> "list", kind |-> k, find |-> f, max |-> m] : k \in {"all", "error"}, f \in {<<>>, <<Find("ca")>>}, m \in {0, 1}}
Ops == Lists \cup {[op |-> "last"], [op |-> "rmall"], [op |-> "pass", h |-> 2401], [op |-> "die", n |-> 1]}
       \cup {[op |-> "rm", n |-> n, force |-> f] : n \in 1..2, f \in BOOLEAN}
       \cup {[op |-> "rmfind", find |-> <<x>>, force |-> f] : x \in {Find("ca"), Find("c"), Name(2)}, f \in BOOLEAN}
Starts == {<<Run1(a, l), Run1(b, FALSE)>> : a \in {"ok", "fail", "hid"}, l \in BOOLEAN, b \in {"ok", "crash", "need", "hid"}}
Ends == {Run1("ok", FALSE), [op |-> "list", kind |-> "all", find |-> <<>>, max |-> 0], [op |-> "last"]}
GenCases == {[id |-> 1, ops |-> s \o <<x, y>> \o <<e>>] : s \in Starts, x \in Ops, y \in Ops \cup {Run2("ok", "fail")}, e \in Ends}
TheCases == IF Family = "json" THEN {c : c \in LET s == JsonDeserialize("cases.json") IN {s[x] : x \in DOMAIN s}} ELSE GenCases
Emit == Over => PrintT(ToJson([id |-> case.id, case |-> IF Family = "json" THEN <<>> ELSE case, obs |-> log]))
=============================================================================
