---------------------------- MODULE TicatHooksMC ----------------------------
EXTENDS TicatHooks, Json
CONSTANT Family
NOCALL == [c |-> "", args |-> <<>>, env |-> <<>>, ok |-> FALSE, rep |-> ""]
Cmd(ty) == [ty |-> ty, args |-> <<>>, a2e |-> <<>>, v2e |-> <<>>, ops |-> <<>>, dep |-> TRUE, eff |-> <<>>,
            fail |-> FALSE, quiet |-> FALSE, genv |-> <<>>, flow |-> <<>>]
Hk(k) == [Cmd("builtin") EXCEPT !.args = <<[n |-> "flow", def |-> ""]>>, !.a2e = <<[k |-> k, a |-> "flow"]>>]
Fl(calls) == [Cmd("flow") EXCEPT !.flow = calls]
Call(n) == [NOCALL EXCEPT !.c = n]
SetHook(n, v) == [NOCALL EXCEPT !.c = n, !.args = <<[a |-> "flow", v |-> v]>>]
HCMDS == [x \in {"hook.done", "hook.error", "hook.exit"} |-> Hk(CASE x = "hook.done" -> HDONE [] x = "hook.error" -> HERROR [] x = "hook.exit" -> HEXIT)]
F(eff, fail) == [Cmd("file") EXCEPT !.eff = eff, !.fail = fail]
Sets == {<<>>, <<SetHook("hook.done", "f2")>>, <<SetHook("hook.error", "w1")>>, <<SetHook("hook.done", "f3"), SetHook("hook.error", "f3")>>}
Exits == {<<>>, <<SetHook("hook.exit", "f2")>>, <<SetHook("hook.exit", "w1")>>, <<Call("w2")>>, <<SetHook("hook.exit", "f1"), SetHook("hook.exit", "nosuch")>>}
Mains == {<<Call("f1")>>, <<Call("f3")>>, <<Call("w1"), Call("f3")>>, <<[Call("f3") EXCEPT !.ok = TRUE], Call("w3")>>, <<Call("w4")>>, <<Call("nosuch")>>}
GenCases ==
  {[id |-> 0, base |-> <<>>, genv |-> g, main |-> s \o x \o m,
    cmds |-> HCMDS @@ [f1 |-> F(<<[k |-> "k1", v |-> "1", del |-> FALSE]>>, FALSE), f2 |-> F(<<>>, FALSE), f3 |-> F(<<>>, TRUE),
                       w1 |-> Fl(<<Call("f1"), Call("f2")>>), w2 |-> Fl(<<SetHook("hook.exit", "f2"), Call("f1")>>),
                       w3 |-> [Fl(<<Call("f1"), Call("f3")>>) EXCEPT !.quiet = TRUE], w4 |-> Fl(<<SetHook("hook.error", "f1"), Call("f3")>>)]] :
   <<g, s, x, m>> \in {<<>>, <<[k |-> HEXIT, v |-> "f2", del |-> FALSE]>>} \X Sets \X Exits \X Mains}
TheCases == IF Family = "json" THEN Range(JsonDeserialize("cases.json")) ELSE GenCases
Emit == IsOver => PrintT(ToJson([id |-> C.id, case |-> IF Family = "json" THEN <<>> ELSE C, obs |-> [runs |-> runs, rec |-> rec, rc |-> rc]]))
=============================================================================
