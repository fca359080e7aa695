---------------------------- MODULE TicatArgsMC ----------------------------
EXTENDS TicatArgs, Json
CONSTANT Family
w(h) == [h |-> h, eq |-> FALSE, t |-> ""]
e(h, t) == [h |-> h, eq |-> TRUE, t |-> t]
Alpha == {w("x"), w("X"), w("y"), w("v"), w(""), e("", ""), e("x", ""), e("", "u"), e("x", "v"), e("y", "=w"), e("z", "v")}
AlphaSys == {w("x"), w("v"), e("", ""), e("%err", "ok"), w("%err"), w("ok"), e("x", "v"), e("%err", "no"), e("%bad", "v")}
A(n, d) == [names |-> n, def |-> d]
Two == <<A(<<"x", "X">>, "dx"), A(<<"y">>, "")>>
One == <<A(<<"x", "X">>, "dx")>>
Three == <<A(<<"y">>, "dy"), A(<<"x", "X">>, ""), A(<<"v">>, "dv")>>
Lists(S, n) == UNION {[1..k -> S] : k \in 0..n}
GenCases ==
  {[id |-> 0, decl |-> Two, words |-> s] : s \in Lists(Alpha, IF Family = "deep" THEN 4 ELSE 3)}
  \cup {[id |-> 0, decl |-> d, words |-> s] : <<d, s>> \in {One, <<>>, Three} \X Lists(Alpha, 3)}
  \cup {[id |-> 0, decl |-> d, words |-> s] : <<d, s>> \in {One, <<>>, Two} \X Lists(AlphaSys, 3)}
TheCases == IF Family = "json" THEN Range(JsonDeserialize("cases.json")) ELSE GenCases
Emit == Done => PrintT(ToJson([id |-> case.id, case |-> IF Family = "json" THEN <<>> ELSE case,
                               obs |-> [rc |-> rc, got |-> got]]))
=============================================================================
