--------------------------- MODULE TicatRepeatMC ---------------------------
EXTENDS TicatRepeat, Json
CONSTANT Family
L(fail, quiet, tags) == [ty |-> "leaf", tags |-> tags, fail |-> fail, quiet |-> quiet, items |-> <<>>]
W(tags, items) == [ty |-> "flow", tags |-> tags, fail |-> "", quiet |-> FALSE, items |-> items]
FOREST == [ITEM EXCEPT !.op = "forest"]
NewL(k, vals) == [ITEM EXCEPT !.op = "new", !.k = k, !.vals = vals]
NewR(k, a, b, s) == [ITEM EXCEPT !.op = "new", !.form = "range", !.k = k, !.a = a, !.b = b, !.s = s]
Run1(c) == [ITEM EXCEPT !.op = "run", !.c = c]
Rep(c, n) == [ITEM EXCEPT !.op = "repeat", !.c = c, !.n = n]
Test(t) == [ITEM EXCEPT !.op = "selftest", !.c = t]
Tol(it) == [it EXCEPT !.ok = TRUE]
CMDS == [fa |-> L("", FALSE, {"t1"}), fb |-> L("2", FALSE, {"t1", "t2"}), fc |-> L("2", TRUE, {}), fd |-> L("always", FALSE, {"t3"}),
         wa |-> W({"t2"}, <<Call("fa"), Call("fb")>>), wb |-> W({}, <<FOREST, Call("fa"), Call("fb")>>),
         wc |-> W({"t3"}, <<FOREST, Call("fa"), Call("fd"), Call("fb")>>), wd |-> W({"t1"}, <<Test("t2"), Call("fa")>>)]
ORDER == <<"fa", "fb", "fc", "fd", "wa", "wb", "wc", "wd">>
Heads == {<<>>, <<FOREST>>, <<NewL("x", <<"1", "2">>)>>, <<NewL("x", <<"1">>), NewL("y", <<"p", "q">>)>>, <<NewR("x", 1, 3, 2)>>,
          <<FOREST, NewL("x", <<"1", "2">>)>>, <<NewL("z", <<"1">>)>>, <<NewR("x", 1, 2, 0)>>, <<NewR("x", 2, 1, 1)>>}
Mids == {Call("fa"), Call("wa"), Call("wb"), Tol(Call("wc")), Tol(Call("fd")), Run1("fa"), Run1("fb"), Run1("fc"), Tol(Run1("fb")), Run1("wa"), Run1("nosuch"),
         Rep("fa", 2), Rep("wb", 2), Tol(Rep("wc", 2)), Rep("fa", 0), Test("t1"), Test("t2"), Tol(Test("t3")), Test("none"), FOREST}
Ends == {<<>>, <<Call("fb")>>, <<Call("fa"), Call("wa")>>, <<Run1("fa"), Call("fb")>>}
GenCases == {[id |-> 0, acc |-> "", cmds |-> CMDS, order |-> ORDER, main |-> h \o m \o t] : h \in Heads, m \in {<<x>> : x \in Mids} \cup {<<x, y>> : x \in {Call("fa"), Tol(Call("wc")), Tol(Test("t3")), FOREST}, y \in Mids}, t \in Ends}
\* sets come as lists
Ready(c) == [c EXCEPT !.cmds = [n \in DOMAIN c.cmds |-> [c.cmds[n] EXCEPT !.tags = ToSet(@)]]]
TheCases == IF Family = "json" THEN {Ready(c) : c \in ToSet(JsonDeserialize("cases.json"))} ELSE GenCases
Emit == st = "done" => PrintT(ToJson([id |-> prog.id, case |-> IF Family = "json" THEN <<>> ELSE prog, obs |-> [runs |-> runs, rc |-> rc]]))
=============================================================================
