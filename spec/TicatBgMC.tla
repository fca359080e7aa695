----------------------------- MODULE TicatBgMC -----------------------------
EXTENDS TicatBg, Json
CONSTANT Family
It(op) == [op |-> op, name |-> "", lab |-> "", w |-> "", ok |-> FALSE, delay |-> FALSE, apply |-> FALSE, k |-> "", v |-> ""]
L(l, nm, w) == [It("leaf") EXCEPT !.lab = l, !.name = nm, !.w = w]
D(i) == [i EXCEPT !.delay = TRUE]
First == {D(L("p1", "la", "w1")), D([L("p1", "lb", "w1") EXCEPT !.apply = TRUE]), D([It("flow") EXCEPT !.name = "fa"])}
Second == {D(L("p2", "la", "")), L("p2", "la", "w2"), [It("set") EXCEPT !.k = "ka", !.v = "s"], D([L("p2", "lb", "w2") EXCEPT !.ok = TRUE])}
Third == {It("wait"), It("waitlast"), [It("waitcmd") EXCEPT !.name = "la"], L("p3", "lb", "w3"), D(L("p3", "la", ""))}
Fourth == {L("p4", "la", ""), It("waitlast")}
GenCases ==
  {[id |-> 0, labels |-> <<"p1", "p2", "p3", "p4", "p5", "p6">>, setters |-> <<"lb">>, nowait |-> FALSE, bad |-> b,
    flows |-> [fa |-> <<L("p5", "la", "w5"), L("p6", "lb", "")>>],
    main |-> <<x, y, z, u>>, sched |-> s] :
   <<x, y, z, u, b, s>> \in First \X Second \X Third \X Fourth \X {<<>>, <<"p1">>, <<"p2", "p6">>, <<"p4">>} \X {<<0, 0, 0, 0, 0>>, <<1, 1, 1, 1>>, <<2, 1, 0, 1>>, <<0, 1, 1, 0>>}}
TheCases == IF Family = "json" THEN Range(JsonDeserialize("cases.json")) ELSE GenCases
Emit == AllDone => PrintT(ToJson([id |-> c.id, case |-> IF Family = "json" THEN <<>> ELSE c, obs |-> obs]))
=============================================================================
