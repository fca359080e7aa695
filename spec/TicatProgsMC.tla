---------------------------- MODULE TicatProgsMC ----------------------------
EXTENDS TicatProgs, Json
CONSTANT Family
P(ext, dir) == [ty |-> "file", ext |-> ext, dir |-> dir, args |-> <<>>, lines |-> <<>>, reads |-> 0, fail |-> FALSE, unlog |-> FALSE, nosess |-> FALSE,
                eff |-> <<>>, tb |-> "", te |-> "", td |-> "", genv |-> <<>>, flow |-> <<>>]
L(s, t) == [s |-> s, t |-> t]
R(e, v) == [e |-> e, v |-> v]
Call(c) == [c |-> c, env |-> <<>>, ok |-> FALSE, set |-> <<>>]
Ok(c) == [Call(c) EXCEPT !.ok = TRUE]
With(c, e) == [Call(c) EXCEPT !.env = e]
SetR(e) == [Call("") EXCEPT !.set = <<e>>]
CMDS == [f1 |-> [P("bash", "mods") EXCEPT !.lines = <<L(1, "a.ssn"), L(2, "b.ssn"), L(1, "c.ssn")>>, !.reads = 1, !.args = <<"v">>],
         f2 |-> [P("py", "mods/in") EXCEPT !.lines = <<L(1, "d.ssn"), L(2, "e.ssn")>>, !.fail = TRUE, !.eff = <<R("py", <<"runA", "-x">>)>>, !.tb = "tk1", !.td = "tk3"],
         f3 |-> [P("", "mods") EXCEPT !.lines = <<L(1, "f.ssn")>>, !.unlog = TRUE, !.reads = 2, !.tb = "tk1", !.te = "tk2", !.td = "tk3"],
         f4 |-> [P("py", "mods") EXCEPT !.ty = "dir", !.lines = <<L(2, "g.ssn")>>, !.dir = "mods/f4", !.te = "tk4", !.eff = <<R("py", <<"runB">>)>>],
         w1 |-> [P("", "") EXCEPT !.ty = "flow", !.flow = <<Call("f1"), Call("f2"), Call("f4")>>, !.te = "tk5"],
         w2 |-> [P("py", "mods") EXCEPT !.ty = "fileflow", !.lines = <<L(1, "h.ssn")>>, !.genv = <<R("py", <<"runA">>)>>, !.flow = <<Ok("f2"), Call("f4")>>, !.td = "tk6"]]
Calls == {Call("f1"), Call("f3"), Call("f4"), Call("w1"), Ok("w1"), Ok("f2"), Call("f2"), Call("w2"), With("w2", <<R("py", <<"nosuch">>)>>), With("f4", <<R("py", <<"runA">>)>>),
          SetR(R("py", <<"runB", "-y">>)), SetR(R("bash", <<"nosuch">>))}
Settings == {<<>>, <<R("py", <<"runB", "1", "2">>)>>}
GenCases == {[id |-> 0, cmds |-> CMDS, saved |-> s, genv |-> g, main |-> m, input |-> <<"i1", "i2", "i3", "i4">>] :
              <<s, g, m>> \in Settings \X Settings \X {<<a, b, c>> : a, b, c \in Calls}}
TheCases == IF Family = "json" THEN LET l == JsonDeserialize("cases.json") IN {l[i] : i \in DOMAIN l} ELSE GenCases
Emit == st = "over" => PrintT(ToJson([id |-> cs.id, case |-> IF Family = "json" THEN <<>> ELSE cs,
                                      obs |-> [progs |-> progs, outs |-> outs, errs |-> errs, logs |-> logs, named |-> named]]))
=============================================================================
