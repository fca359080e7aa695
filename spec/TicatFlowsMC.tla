---------------------------- MODULE TicatFlowsMC ----------------------------
EXTENDS TicatFlows, Json
CONSTANT Family
S(op) == [op |-> op, n |-> "", to |-> "", seq |-> <<>>, help |-> "", ans |-> "no"]
SV(n, q, a) == [S("save") EXCEPT !.n = n, !.seq = q, !.ans = a]
Ops ==
  {SV(n, q, a) : <<n, q, a>> \in {"n1", "l1"} \X {<<"l1">>} \X {"no", "yes", "quiet"}}
  \cup {SV("n2", <<"n1", "l2">>, a) : a \in {"no", "quiet"}}
  \cup {[S("rename") EXCEPT !.n = x[1], !.to = x[2], !.ans = a] : <<x, a>> \in {<<"n1", "n2">>, <<"n1", "n3">>, <<"n2", "n3">>, <<"n1", "l1">>} \X {"no", "yes"}}
  \cup {[S("rm") EXCEPT !.n = n] : n \in {"n1", "n2"}}
  \cup {S("clear"), S("move"), S("moveamb"), [S("edit") EXCEPT !.n = "n1"], [SV("n3", <<"l2">>, "quiet") EXCEPT !.op = "saveto"], [S("help") EXCEPT !.n = "n1", !.help = "hh"]}
Inits == {<<>>, <<[n |-> "n1", seq |-> <<"l2">>]>>, <<[n |-> "n3", seq |-> <<"l2", "l2">>]>>}
GenCases ==
  {[id |-> 0, leaves |-> <<"l1", "l2">>, names |-> <<"n1", "n2", "n3">>, above |-> <<>>, linked |-> l, init |-> i,
    steps |-> <<SV("n1", <<"l1", "l2">>, "no"), x, y, z>>] : <<l, i, x, y, z>> \in BOOLEAN \X Inits \X Ops \X Ops \X Ops}
TheCases == IF Family = "json" THEN Range(JsonDeserialize("cases.json")) ELSE GenCases
Emit == AllDone => PrintT(ToJson([id |-> c.id, case |-> IF Family = "json" THEN <<>> ELSE c, obs |-> obs]))
=============================================================================
