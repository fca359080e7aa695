---------------------------- MODULE TicatHubMC ----------------------------
EXTENDS TicatHub, Json
CONSTANT Family
H(n) == "https://github.com/u/" \o n
R(n) == [addr |-> H(n), path |-> "/B/ticat.data/hub/github.com/u/" \o n \o "/default.branch", cmd |-> n]
L(n) == [path |-> "/B/" \o n, cmd |-> n, help |-> ""]
B == [op |-> "begin"]
E == [op |-> "end"]
Sub(n, h) == [addr |-> H(n), help |-> h]
\* a lists b and c, both list d; ab is there to be matched by mistake
Pubs == << [op |-> "pub", addr |-> H("qa"), help |-> "top", subs |-> <<Sub("qb", "of qa"), Sub("qc", "")>>],
           [op |-> "pub", addr |-> H("qb"), help |-> "hb", subs |-> <<Sub("qab", "")>>],
           [op |-> "pub", addr |-> H("qc"), help |-> "hc", subs |-> <<Sub("qab", "x"), Sub("qa", "")>>] >>
Ops == {[op |-> "add", addr |-> H("qa")], [op |-> "add", addr |-> H("qb")], [op |-> "addl", path |-> "/B/ld1"], [op |-> "update"],
        [op |-> "en", s |-> H("qb")], [op |-> "en", s |-> "github.com"], [op |-> "dis", s |-> H("qb")], [op |-> "dis", s |-> "/B/ld1"], [op |-> "dis", s |-> "github.com/u"],
        [op |-> "purge", s |-> H("qb")], [op |-> "purge", s |-> "of qa"], [op |-> "purgeall"], [op |-> "clear"]}
Firsts == {[op |-> "add", addr |-> H("qa")], [op |-> "add", addr |-> H("qc")], [op |-> "addl", path |-> "/B/ld1"]}
GenCases ==
  {[id |-> 0, remotes |-> <<R("qa"), R("qb"), R("qc"), R("qab")>>, locals |-> <<L("ld1")>>, init |-> "",
    steps |-> Pubs \o <<B, f, E>> \o <<B, x, E>> \o br1 \o <<B, y, z, E>>] :
    <<f, x, br1, y, z>> \in Firsts \X Ops \X {<<>>, <<[op |-> "gone", addr |-> H("qb")]>>} \X Ops \X Ops}
TheCases == IF Family = "json" THEN Range(JsonDeserialize("cases.json")) ELSE GenCases
Emit == AllDone => PrintT(ToJson([id |-> case.id, case |-> IF Family = "json" THEN <<>> ELSE case, obs |-> obs]))
=============================================================================
