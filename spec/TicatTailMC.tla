---------------------------- MODULE TicatTailMC ----------------------------
EXTENDS TicatTail, Json
CONSTANT Family
P(n) == [k |-> "prog", n |-> n]
KindsAll == {[k |-> "empty"], P("a"), [k |-> "flow", n |-> "w", body |-> <<"a", "b">>], [k |-> "insp"], [k |-> "save", n |-> "s1"],
             [k |-> "cmd"], [k |-> "list"], [k |-> "view"], [k |-> "plain"]}
Enders == {[k |-> "insp"], [k |-> "save", n |-> "s2"], [k |-> "cmd"], [k |-> "list"], [k |-> "view"]}
\* all sequences of up to three segments, followed by an inspecting command, directly or in the tail notation;
\* and all sequences of up to three without
\* (a normal command in the tail notation is refused, not of interest here)
Sane(s) == \A i \in 2..Len(s) : s[i - 1].k = "empty" => (s[i].k \in {"insp", "cmd", "list", "view", "save"} /\ (i = 2 => FALSE))
Bodies == UNION {[1..n -> KindsAll] : n \in 1..3}
GenCases ==
  {[id |-> 0, segs |-> s] : s \in {x \in
     {b \o <<e>> : <<b, e>> \in Bodies \X Enders} \cup {b \o <<[k |-> "empty"], e>> : <<b, e>> \in Bodies \X Enders} \cup Bodies :
       Sane(x) /\ x[Len(x)].k # "empty" /\ x[1].k # "empty"}}
TheCases == IF Family = "json" THEN Range(JsonDeserialize("cases.json")) ELSE GenCases
Emit == phase = "done" => PrintT(ToJson([id |-> case.id, case |-> IF Family = "json" THEN <<>> ELSE case,
                                         obs |-> [runs |-> runs, stored |-> stored, rc |-> rc]]))
=============================================================================
