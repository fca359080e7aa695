---------------------------- MODULE TicatExecGen ----------------------------
(***************************************************************************)
(* Complete enumeration of small programs, family by family.  TLC checks   *)
(* the properties of TicatExecProps on all of them and prints what each    *)
(* has to do; the real ticat is then run on every one.                     *)
(***************************************************************************)
EXTENDS TicatExecProps, Json

CONSTANT Family

D == [ty |-> "file", args |-> <<>>, a2e |-> <<>>, v2e |-> <<>>, ops |-> <<>>, dep |-> TRUE,
      eff |-> <<>>, fail |-> FALSE, quiet |-> FALSE, genv |-> <<>>, flow |-> <<>>]
K(c) == [c |-> c, args |-> <<>>, env |-> <<>>, ok |-> FALSE, rep |-> ""]
KOk(c, ok) == [K(c) EXCEPT !.ok = ok]
Set(k, v) == [k |-> k, v |-> v, del |-> FALSE]
Del(k) == [k |-> k, v |-> "--", del |-> TRUE]
Case(cmds, base, genv, main) == [cmds |-> cmds, base |-> base, genv |-> genv, main |-> main]
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}

\* failing, tolerated and quietly failing commands
FailCases ==
  {Case([ca |-> [D EXCEPT !.fail = af, !.quiet = aq], cb |-> [D EXCEPT !.fail = bf],
         cw |-> [D EXCEPT !.ty = ty, !.quiet = wq, !.fail = wf, !.flow = fl]], <<>>, <<>>, m)
   : <<af, aq, bf, ty, wq, wf, fl, m>> \in
     BOOLEAN \X BOOLEAN \X BOOLEAN \X {"flow", "fileflow"} \X BOOLEAN \X {FALSE}
     \X {<<KOk("ca", x), KOk("cb", y)>> : <<x, y>> \in BOOLEAN \X BOOLEAN}
     \X (LET calls == {KOk(c, o) : <<c, o>> \in {"ca", "cb", "cw"} \X BOOLEAN}
         IN Seqs(calls, 1, 2))}

\* nested flows
NestCases ==
  {Case([ca |-> D, cb |-> D,
         cu |-> [D EXCEPT !.ty = t1, !.flow = [i \in DOMAIN f1 |-> K(f1[i])]],
         cv |-> [D EXCEPT !.ty = t2, !.flow = [i \in DOMAIN f2 |-> K(f2[i])]],
         cw |-> [D EXCEPT !.ty = t3, !.flow = [i \in DOMAIN f3 |-> K(f3[i])]]],
        <<>>, <<>>, <<K("cw"), K("ca")>>)
   : <<t1, t2, t3, f1, f2, f3>> \in
     {"flow", "fileflow"} \X {"flow", "fileflow"} \X {"flow", "fileflow"}
     \X Seqs({"ca", "cb"}, 1, 2) \X Seqs({"ca", "cu"}, 1, 2) \X Seqs({"cu", "cv", "cb"}, 1, 2)}

\* where a value is visible
ScopeCases ==
  {Case([ca |-> D, cp |-> [D EXCEPT !.eff = <<Set("k1", "P")>>], cd |-> [D EXCEPT !.eff = <<Del("k1")>>],
         cw |-> [D EXCEPT !.ty = "flow", !.genv = wg, !.flow = fl]], b, g, m)
   : <<wg, fl, b, g, m>> \in
     {<<>>, <<Set("k1", "W")>>}
     \X {<<[K(x) EXCEPT !.env = e], K(y)>> : <<x, e, y>> \in {"ca", "cp", "cd"} \X {<<>>, <<Set("k1", "C")>>} \X {"ca", "cp", "cd"}}
     \X {<<>>, <<[k |-> "k1", v |-> "B"]>>}
     \X {<<>>, <<Set("k1", "G")>>}
     \X {<<[K(x) EXCEPT !.env = e], [K(y) EXCEPT !.env = f], K("ca")>> : <<x, e, y, f>> \in
           {"cw", "cp", "ca"} \X {<<>>, <<Set("k1", "D")>>, <<Del("k1")>>} \X {"cw", "ca"} \X {<<>>, <<Set("k1", "E")>>}}}

\* declared reads and writes
Ops(s) == [i \in DOMAIN s |-> [k |-> "k1", op |-> s[i]]]
OpsCases ==
  {Case([cr |-> [D EXCEPT !.ops = Ops(<<"read">>)], cs |-> [D EXCEPT !.ops = Ops(<<"write">>)],
         cq |-> [D EXCEPT !.ops = Ops(<<"may-read">>)], cm |-> [D EXCEPT !.ops = Ops(<<"may-write">>)],
         cx |-> [D EXCEPT !.ops = Ops(xo)],
         cw |-> [D EXCEPT !.ty = wt, !.ops = Ops(wo), !.flow = <<K(f[1]), [K(f[2]) EXCEPT !.env = e]>>]], b, g,
        [i \in DOMAIN mn |-> K(mn[i])])
   : <<xo, wt, wo, f, e, b, g, mn>> \in
     {<<"read", "write">>, <<"write", "read">>} \X {"flow", "fileflow"} \X {<<>>, <<"read">>, <<"write">>}
     \X {<<"cr", "cs">>, <<"cs", "cr">>, <<"cx", "cq">>, <<"cm", "cr">>} \X {<<>>, <<Set("k1", "E")>>}
     \X {<<>>, <<[k |-> "k1", v |-> "B"]>>} \X {<<>>, <<Set("k1", "G")>>, <<Del("k1")>>}
     \X (Seqs({"cr", "cs", "cm", "cw"}, 1, 2) \cup {<<"cx", "cr">>, <<"cq", "cw">>, <<"cm", "cw", "cr">>, <<"cs", "cw", "cr">>})}

\* arguments and what is mapped from them
ArgCalls(c) == {[K(c) EXCEPT !.args = a, !.env = e] :
  <<a, e>> \in {<<>>, <<[a |-> "x", v |-> "1"]>>, <<[a |-> "y", v |-> "2"]>>,
                <<[a |-> "x", v |-> "3"], [a |-> "y", v |-> "4"]>>}
               \X {<<>>, <<Set("k1", "5")>>}}
ArgCases ==
  {Case([ca |-> [D EXCEPT !.args = <<[n |-> "x", def |-> dx], [n |-> "y", def |-> "dy"]>>, !.a2e = m, !.v2e = v],
         cw |-> [D EXCEPT !.ty = "flow", !.args = <<[n |-> "x", def |-> "wx"]>>,
                         !.flow = <<[K("ca") EXCEPT !.args = <<[a |-> "x", v |-> t]>>], K("ca")>>]], b, <<>>,
        <<c1, c2>>)
   : <<dx, m, v, t, b, c1, c2>> \in
     {"", "dx"} \X {<<>>, <<[k |-> "k1", a |-> "x"]>>, <<[k |-> "k1", a |-> "y"], [k |-> "k2", a |-> "x"]>>}
     \X {<<>>, <<Set("k1", "V")>>, <<Set("k3", "<[[k1]]>")>>} \X {"9", "[[x]]"}
     \X {<<>>, <<[k |-> "k1", v |-> "B"]>>}
     \X ArgCalls("ca") \X {K("ca"), K("cw"), [K("cw") EXCEPT !.args = <<[a |-> "x", v |-> "7"]>>],
                          [K("ca") EXCEPT !.args = <<[a |-> "y", v |-> "8"]>>]}}

\* which command a flow runs is up to a value
NamedCases ==
  {Case([ca |-> D, cp |-> [D EXCEPT !.eff = <<Set("k1", ev)>>], cn |-> [D EXCEPT !.dep = FALSE], cx |-> [D EXCEPT !.args = <<[n |-> "x", def |-> "dx"]>>],
         cr |-> [D EXCEPT !.ops = <<[k |-> "k2", op |-> "read"]>>],
         cu |-> [D EXCEPT !.ty = "flow", !.flow = <<K("[[k1]]")>>],
         cw |-> [D EXCEPT !.ty = "flow", !.args = <<[n |-> "x", def |-> "ca"]>>, !.genv = wg, !.flow = fl]], b, g, m)
   : <<ev, wg, fl, b, g, m>> \in
     {"ca", "cn", "cr", "c?"} \X {<<>>, <<Set("k1", "cx")>>, <<Set("k1", "cn")>>}
     \X {<<K("[[k1]]"), K("[[x]]")>>, <<K("[[x]]"), K("cu")>>, <<[K("[[k1]]") EXCEPT !.args = <<[a |-> "x", v |-> "1"]>>], K("cu")>>, <<[K("cu") EXCEPT !.env = <<Set("k1", "cp")>>], K("c[[x]]")>>}
     \X {<<>>, <<[k |-> "k1", v |-> "ca"]>>} \X {<<>>, <<Set("k1", "cp")>>, <<Del("k1")>>}
     \X {<<K("cw"), K("cu")>>, <<K("cp"), K("cw")>>, <<[K("cw") EXCEPT !.args = <<[a |-> "x", v |-> "cr"]>>], K("ca")>>, <<[K("cu") EXCEPT !.env = <<Set("k1", "cr")>>], K("cw")>>,
          <<[K("cw") EXCEPT !.args = <<[a |-> "x", v |-> "a"]>>]>>}}

GenCases ==
  CASE Family = "fail" -> FailCases
    [] Family = "nest" -> NestCases
    [] Family = "scope" -> ScopeCases
    [] Family = "ops" -> OpsCases
    [] Family = "args" -> ArgCases
    [] Family = "named" -> NamedCases

Emit == phase = "done" => PrintT(ToJson([case |-> prog, runs |-> runs, rec |-> rec, rc |-> rc]))
=============================================================================
