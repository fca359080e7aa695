---------------------------- MODULE TicatRetryMC ----------------------------
(* Cases for TicatRetry: from cases.json, or enumerated. *)
EXTENDS TicatRetry

CONSTANT Family

D == [ty |-> "file", args |-> <<>>, a2e |-> <<>>, v2e |-> <<>>, ops |-> <<>>, dep |-> TRUE,
      eff |-> <<>>, fail |-> FALSE, quiet |-> FALSE, genv |-> <<>>, flow |-> <<>>]
K(c) == [c |-> c, args |-> <<>>, env |-> <<>>, ok |-> FALSE, rep |-> ""]
Set(k, v) == [k |-> k, v |-> v, del |-> FALSE]
Del(k) == [k |-> k, v |-> "--", del |-> TRUE]
Fault(n, k) == <<[n |-> n, kind |-> k]>>
At(f, from) == [faults |-> f, from |-> from]
Kinds == {"fail", "crash"}

\* two faults one after the other at every pair of points of a nested sequence,
\* then the rest is run from the second record, or from the first one again
Plans ==
  {<<At(Fault(n, k), 0), At(<<>>, 1), At(<<>>, 2)>> : n \in 1..6, k \in Kinds}
  \cup {<<At(Fault(n, k), 0), At(Fault(m, l), 1), At(<<>>, f)>> : n \in 1..5, k \in Kinds, m \in 1..2, l \in Kinds, f \in 1..2}
Case(i, cmds, base, genv, main, plan) == [id |-> 1, cmds |-> cmds, base |-> base, genv |-> genv, main |-> main, att |-> plan]

NestCases ==
  {Case(1, [ca |-> [D EXCEPT !.eff = <<Set("k1", "A")>>], cb |-> [D EXCEPT !.eff = be],
         cu |-> [D EXCEPT !.ty = t1, !.flow = <<K("ca"), K("cb")>>, !.genv = g, !.eff = IF t1 = "flow" THEN <<>> ELSE <<Set("k1", "U")>>],
         cw |-> [D EXCEPT !.ty = t2, !.quiet = q, !.flow = <<K("cu"), K("cb")>>]], <<>>, <<Set("k2", "G")>>, m, p)
   : <<be, t1, t2, q, g, m, p>> \in
     {<<Set("k1", "B")>>, <<Del("k1")>>} \X {"flow", "fileflow"} \X {"flow", "fileflow"} \X {FALSE}
     \X {<<>>, <<Set("k2", "W")>>}
     \X {<<K("cw")>>, <<K("ca"), K("cw"), K("cb")>>, <<[K("ca") EXCEPT !.env = <<Set("k3", "L")>>], K("cu"), K("cb")>>}
     \X Plans}

RGenCases ==
  CASE Family = "json" -> {[c EXCEPT !.id = c.id] : c \in Range(JsonDeserialize("cases.json"))}
    [] Family = "nest" -> NestCases

Emit == Over => PrintT(ToJson(IF Family = "json" THEN [id |-> C.id, obs |-> Log]
                              ELSE [id |-> 1, case |-> prog, obs |-> Log]))
=============================================================================
