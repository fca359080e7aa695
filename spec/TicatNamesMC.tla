---------------------------- MODULE TicatNamesMC ----------------------------
EXTENDS TicatNames, Json
CONSTANT Family
M(id, path, abbrs, kind) == [id |-> id, src |-> 1, path |-> path, abbrs |-> abbrs, kind |-> kind, env |-> <<>>]
N(w) == [t |-> "name", w |-> w, kv |-> <<>>]
S == [t |-> "sep", w |-> "", kv |-> <<>>]
E(k) == [t |-> "env", w |-> "", kv |-> <<[k |-> k, v |-> "1"]>>]
EQ == << <<[n |-> "qa", ab |-> <<"e1">>], [n |-> "qb", ab |-> <<"e2">>]>>, <<[n |-> "qc", ab |-> <<"e3">>]>> >>
Tree1 == <<[M("m1", <<"qa", "qb">>, <<<<>>, <<"w2">>>>, "file") EXCEPT !.env = EQ], M("m2", <<"qa", "qc">>, <<<<"w1">>, <<"w3">>>>, "flow"), M("m3", <<"qb">>, <<<<"w4">>>>, "flow")>>
Tree2 == <<[M("m1", <<"qa", "qb">>, <<<<>>, <<"w2">>>>, "flow") EXCEPT !.env = EQ], M("m2", <<"qa">>, <<<<"w1">>>>, "dir"), [M("m3", <<"qa", "qb">>, <<<<>>, <<"w5">>>>, "file") EXCEPT !.src = 2], [M("m4", <<"qb">>, <<<<>>>>, "bad") EXCEPT !.src = 2]>>
Parts == {<<N("qa")>>, <<N("w1")>>, <<S, N("qa")>>, <<>>}
Mid == {<<S>>, <<>>, <<S, S>>, <<E(<<"qb">>)>>, <<S, E(<<"e2">>)>>, <<E(<<"qz">>), S>>, <<E(<<"x">>)>>}
Lst == {<<N("qb")>>, <<N("w2")>>, <<N("w3")>>, <<N("qc")>>, <<N("nope")>>}
Tails == {<<>>, <<N("5")>>, <<E(<<"xx">>)>>, <<E(<<"x">>), N("qa")>>}
Heads == {<<>>, <<E(<<"e1", "e2">>)>>, <<E(<<"qa", "e2">>), E(<<"e3">>)>>, <<E(<<"e1", "zz">>)>>}
CallSet == {h \o a \o b \o c \o d : <<h, a, b, c, d>> \in {y \in Heads \X Parts \X Mid \X Lst \X Tails : y[2] = <<>> => y[3] # <<E(<<"x">>)>>}}
GenCases == {[id |-> 0, mods |-> t, global |-> g, calls |-> <<c>> \o r, keys |-> << <<"qa", "qb">>, <<"qc">>, <<"qa", "e2">>, <<"e1", "zz">>, <<"qa", "qz">>, <<"qz">>, <<"qb">>, <<"e2">>, <<"qa", "x">> >>] :
             <<t, g, c, r>> \in {Tree1, Tree2} \X BOOLEAN \X CallSet \X {<<>>, <<<<N("qa"), S, N("qb")>>>>}}
TheCases == IF Family = "json" THEN Range(JsonDeserialize("cases.json")) ELSE GenCases
Emit == phase = "done" => PrintT(ToJson([id |-> C.id, case |-> IF Family = "json" THEN <<>> ELSE C,
                                         obs |-> [any |-> Unspecified, runs |-> out, rc |-> rc]]))
=============================================================================
