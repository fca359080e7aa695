------------------------- MODULE TicatSessDescMC ----------------------------
(* TicatSessDesc on the programs of a family and on those of cases.json *)
EXTENDS TicatSessDesc, Json

CONSTANT Family

D == [ty |-> "file", args |-> <<>>, a2e |-> <<>>, v2e |-> <<>>, ops |-> <<>>, dep |-> TRUE,
      eff |-> <<>>, fail |-> FALSE, quiet |-> FALSE, genv |-> <<>>, flow |-> <<>>, triv |-> 0]
K(c) == [c |-> c, args |-> <<>>, env |-> <<>>, ok |-> FALSE, rep |-> ""]
Set(k, v) == [k |-> k, v |-> v, del |-> FALSE]
Case(cmds, main, how, which, depth, unfold) ==
  [cmds |-> cmds, base |-> <<>>, genv |-> <<>>, main |-> main, how |-> how, which |-> which, depth |-> depth, unfold |-> unfold, cut |-> 0]

\* a failure at any place of nested flows, tolerated or not, folded or not
FailCases ==
  {Case([ca |-> [D EXCEPT !.eff = <<Set("k1", "a")>>], cz |-> [D EXCEPT !.fail = TRUE, !.quiet = q],
         cu |-> [D EXCEPT !.ty = "flow", !.triv = t1, !.flow = [i \in DOMAIN f2 |-> [K(f2[i]) EXCEPT !.ok = o2]]],
         cv |-> [D EXCEPT !.ty = "fileflow", !.triv = t2, !.fail = vf, !.flow = [i \in DOMAIN f3 |-> [K(f3[i]) EXCEPT !.ok = (o1 /\ i = 1)]]]],
        [i \in DOMAIN m |-> [K(m[i]) EXCEPT !.ok = (o1 /\ i = 1)]], dp[3], "last", dp[1], dp[2])
   : <<q, t1, t2, f2, o2, vf, f3, m, o1, dp>> \in
     BOOLEAN \X (0..1) \X (0..1) \X {<<"ca", "ca">>, <<"ca", "cz">>, <<"cz", "ca">>} \X BOOLEAN \X BOOLEAN
     \X {<<"cu", "ca">>, <<"ca", "cu">>} \X {<<"cv", "ca">>, <<"cu", "cv">>, <<"cv">>} \X BOOLEAN
     \X {<<32, 1, "less">>, <<32, 9, "full">>, <<1, 1, "more">>, <<2, 2, "less">>, <<2, 2, "more">>}}

\* killed at any point
CutCases == {[c EXCEPT !.cut = n] : c \in {x \in FailCases : x.depth = 2 /\ ~x.cmds.cz.quiet}, n \in 1..14}

FromJson == LET l == JsonDeserialize("cases.json") IN {l[i] : i \in DOMAIN l}
TheCases == IF Family = "fail" THEN FailCases ELSE IF Family = "cut" THEN CutCases ELSE FromJson

Emit ==
  phase = "done" =>
    PrintT(ToJson(IF Family = "json" THEN [id |-> prog.id, obs |-> SessObs] ELSE [case |-> prog, obs |-> SessObs]))
=============================================================================
