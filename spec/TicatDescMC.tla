---------------------------- MODULE TicatDescMC -----------------------------
(* TicatDesc on the programs of a family and on those of cases.json *)
EXTENDS TicatDesc, Json

CONSTANT Family

D == [ty |-> "file", args |-> <<>>, a2e |-> <<>>, v2e |-> <<>>, ops |-> <<>>, dep |-> TRUE,
      eff |-> <<>>, fail |-> FALSE, quiet |-> FALSE, genv |-> <<>>, flow |-> <<>>, triv |-> 0]
K(c) == [c |-> c, args |-> <<>>, env |-> <<>>, ok |-> FALSE, rep |-> ""]
X(c, v) == [K(c) EXCEPT !.args = <<[a |-> "x", v |-> v]>>]
Set(k, v) == [k |-> k, v |-> v, del |-> FALSE]
Case(cmds, genv, main, how, depth, unfold) ==
  [cmds |-> cmds, base |-> <<>>, genv |-> genv, main |-> main, how |-> how, depth |-> depth, unfold |-> unfold]
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}

\* which flows are shown: nested, repeated, trivial
FoldCases ==
  {Case([ca |-> D, cb |-> [D EXCEPT !.triv = 1],
         cu |-> [D EXCEPT !.ty = "flow", !.triv = t1, !.flow = <<K("ca"), K("cb")>>],
         cv |-> [D EXCEPT !.ty = "fileflow", !.triv = t2, !.flow = [i \in DOMAIN f2 |-> K(f2[i])]],
         cw |-> [D EXCEPT !.ty = "flow", !.triv = t3, !.flow = [i \in DOMAIN f3 |-> K(f3[i])]]],
        <<>>, [i \in DOMAIN m |-> K(m[i])], "skel", dp[1], dp[2])
   : <<t1, t2, t3, f2, f3, m, dp>> \in
     (0..2) \X (0..1) \X (0..1) \X Seqs({"ca", "cu"}, 1, 2) \X Seqs({"cu", "cv"}, 1, 2) \X {<<"cw">>, <<"cw", "cw">>, <<"cv", "cw">>, <<"cu", "cb">>}
     \X {<<32, 1>>, <<32, 2>>, <<1, 1>>, <<2, 9>>, <<3, 3>>}}

\* values on their way: a command tells k1 from its argument, a flow uses it
ValueCases ==
  {Case([ca |-> [D EXCEPT !.args = <<[n |-> "x", def |-> "dx"]>>, !.a2e = <<[k |-> "k1", a |-> "x"]>>],
         cr |-> [D EXCEPT !.args = <<[n |-> "x", def |-> ""]>>, !.ops = <<[k |-> "k1", op |-> "read"]>>, !.dep = dp],
         cu |-> [D EXCEPT !.ty = "flow", !.args = <<[n |-> "x", def |-> "ux"]>>, !.flow = <<X("ca", "[[x]]")>>],
         cw |-> [D EXCEPT !.ty = "flow", !.genv = wg, !.flow = <<X("cr", "[[k1]]"), w2>>]],
        g, m, "skel", 32, 1)
   : <<dp, wg, w2, g, m>> \in
     BOOLEAN \X {<<>>, <<Set("k1", "w")>>} \X {K("cu"), X("cu", "3"), K("ca")} \X {<<>>, <<Set("k1", "g")>>}
     \X Seqs({K("cw"), X("ca", "1"), X("cu", "2"), K("cu"), K("cr")}, 1, 3)}

FromJson == LET l == JsonDeserialize("cases.json") IN {l[i] : i \in DOMAIN l}
TheCases ==
  CASE Family = "fold" -> FoldCases
    [] Family = "value" -> ValueCases
    [] Family = "json" -> FromJson

Here == Family # "json" \/ phase = "parse"
Emit ==
  phase = "parse" =>
    PrintT(ToJson(IF Family = "json" THEN [id |-> prog.id, obs |-> Obs] ELSE [case |-> prog, obs |-> Obs]))
=============================================================================
