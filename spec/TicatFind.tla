---------------------------- MODULE TicatFind ----------------------------
(* What searching, listing and describing commands shows.

   A catalogue is a forest of named places, loaded from several sources.  A place
   may have a command with help, arguments, keys it reads and writes, things it
   needs, and it may be found by any of these.  A query walks the branch it is
   about and shows each place that matches, and says about it what is known.

   Text is matched as what it is: a keyword occurs in a text if it is a piece of
   it; `cs.chars` spells the texts.                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT Cases

VARIABLES cs, q, todo, shown, results, st
vars == <<cs, q, todo, shown, results, st>>

Occurs(k, t) == \E i \in 0..Len(t) : i + Len(k) <= Len(t) /\ SubSeq(t, i + 1, i + Len(k)) = k
Set(s) == {s[i] : i \in DOMAIN s}
Spelled(s) == cs.chars[s]
RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatSeq(Tail(ss))
Map(s, Op(_)) == [i \in DOMAIN s |-> Op(s[i])]
Sel(s, T(_)) == SelectSeq(s, T)

(* ---- what a place can be found by ---- *)
HasCmd(n) == n.ty # "none"
Timers(n) == Sel(<<n.tb, n.te, n.td>>, LAMBDA k : k # "")
\* all keys with what is done to them, in the order they are said: the timers come first
Ops(n) == Map(Timers(n), LAMBDA k : [k |-> k, ops |-> <<"write">>]) \o n.ops
Texts(n) ==
  {n.name, n.src} \cup Set(n.abbrs)
  \cup (IF HasCmd(n)
        THEN {n.path, n.help, n.exe, n.ty}
             \cup UNION {Set(a.names) : a \in Set(n.args)}
             \cup {v.k : v \in Set(n.val)}
             \cup UNION {{m.k, m.a} : m \in Set(n.arg2env)}
             \cup UNION {{o.k} \cup Set(o.ops) : o \in Set(Ops(n))}
             \cup (IF n.val # <<>> \/ n.arg2env # <<>> THEN {"write"} ELSE {})
             \cup UNION {{d.c, d.why} : d \in Set(n.deps)}
             \cup (IF n.quiet THEN {"quiet"} ELSE {})
        ELSE {})
FoundBy(n, k) == \/ \E t \in Texts(n) : Occurs(Spelled(k), Spelled(t))
                 \/ \E t \in Set(n.tags) : Occurs(Spelled(k), <<"@">> \o Spelled(t))
Writes(n) == UNION {IF Set(o.ops) \cap {"write", "may-write"} # {} THEN {o.k} ELSE {} : o \in Set(Ops(n))}
             \cup {v.k : v \in Set(n.val)} \cup {m.k : m \in Set(n.arg2env)}
(* ---- which places a query is about ---- *)
Matches(n, qq) ==
  CASE qq.kind = "tag"   -> Set(qq.words) \cap Set(n.tags) # {}
    [] qq.kind = "write" -> HasCmd(n) /\ qq.key \in Writes(n)
    [] qq.kind = "all"   -> n.ty \notin {"none", "dir-with-no-executable"}
    [] qq.kind \in {"one", "api"} -> n.path = qq.branch
    [] OTHER -> /\ \A k \in Set(qq.words) : FoundBy(n, k)
                /\ qq.tag # "" => qq.tag \in Set(n.tags)
                /\ qq.source # "" => Occurs(Spelled(qq.source), Spelled(n.src))
\* indices into cs.nodes
Below(p) == Sel([i \in DOMAIN cs.nodes |-> i], LAMBDA i : cs.nodes[i].up = p)
At(p) == Sel([i \in DOMAIN cs.nodes |-> i], LAMBDA i : cs.nodes[i].path = p)
RECURSIVE DepthOf(_)
DepthOf(p) == IF p = "" THEN 0 ELSE 1 + DepthOf(cs.nodes[At(p)[1]].up)
Far(n, qq) == DepthOf(n.path) - DepthOf(qq.branch)
Goes(n, qq) == CASE qq.kind \in {"one", "api"} -> FALSE
                 [] qq.depth = 0 -> TRUE
                 [] OTHER -> Far(n, qq) < qq.depth
Start(qq) == IF qq.branch = "" THEN Below("") ELSE At(qq.branch)

(* ---- what is said about one ---- *)
Sensitive(names) == \E w \in {"pwd", "password", "passphrase", "secret", "private"}, x \in names : Occurs(Spelled(w), Spelled(x))
Says(names, v, qq) == IF v # "" /\ ~qq.bare /\ Sensitive(names) /\ v \notin {"true", "false"} THEN "***" ELSE v
Merged(os) == \* a key which is said twice is shown once, with everything done to it
  LET RECURSIVE M(_, _)
      M(rest, out) == IF rest = <<>> THEN out
                      ELSE LET o == Head(rest)
                               at == {i \in DOMAIN out : out[i].k = o.k}
                           IN M(Tail(rest), IF at = {} THEN Append(out, o) ELSE [out EXCEPT ![CHOOSE i \in at : TRUE].ops = @ \o o.ops])
  IN M(os, <<>>)
About(n, qq) ==
  LET more == qq.mode # "lite"
      full == qq.mode = "full"
      If(c, s) == IF c THEN s ELSE <<>>
  IN [n |-> n.path,
      help |-> IF HasCmd(n) /\ n.help # "" THEN <<n.help>> ELSE <<>>,
      tags |-> If(full \/ qq.kind = "tag" \/ qq.tag # "", n.tags),
      args |-> If(more, Map(n.args, LAMBDA a : [names |-> a.names, def |-> Says(Set(a.names), a.def, qq), enum |-> a.enum])),
      val |-> If(full, Map(n.val, LAMBDA v : [k |-> v.k, v |-> Says({v.k}, v.v, qq)])),
      arg2env |-> If(full, n.arg2env),
      ops |-> If(full, Merged(Ops(n))),
      deps |-> If(full, n.deps),
      type |-> If(full /\ HasCmd(n), <<n.ty>> \o If(n.quiet, <<"quiet">>)),
      flow |-> If(full, n.flow),
      exe |-> If(full /\ n.exe # "", <<n.exe>>),
      meta |-> If(full /\ HasCmd(n), <<n.meta>>)]

\* what other programs can ask for
Facts(n) == LET If(c, x) == IF c THEN <<x>> ELSE <<>> IN
  [n |-> n.path, args |-> <<>>, val |-> <<>>, type |-> If(HasCmd(n), n.ty), meta |-> If(HasCmd(n), n.meta),
   exe |-> If(n.exe # "" /\ n.ty # "dir-with-no-executable", n.exe)]

(* ---- the walk ---- *)
Init == /\ cs \in Cases /\ q = 1 /\ todo = <<>> /\ shown = <<>> /\ results = <<>> /\ st = "ask"
Q == cs.queries[q]
Ask == /\ st = "ask" /\ q <= Len(cs.queries)
       /\ todo' = Start(Q) /\ shown' = <<>> /\ st' = "walk"
       /\ UNCHANGED <<cs, q, results>>
Visit == /\ st = "walk" /\ todo # <<>>
         /\ LET n == cs.nodes[Head(todo)] IN
            /\ shown' = IF Matches(n, Q) THEN Append(shown, Head(todo)) ELSE shown
            /\ todo' = (IF Goes(n, Q) THEN Below(n.path) ELSE <<>>) \o Tail(todo)
         /\ UNCHANGED <<cs, q, results, st>>
Tags == UNION {Set(cs.nodes[i].tags) : i \in DOMAIN cs.nodes}
Answer == IF Q.kind = "tags" THEN [names |-> <<>>, about |-> <<>>, tags |-> Tags]
          ELSE [names |-> Map(shown, LAMBDA i : cs.nodes[i].path),
                about |-> IF Q.kind = "all" THEN <<>>
                            ELSE IF Q.kind = "api" THEN Map(shown, LAMBDA i : Facts(cs.nodes[i]))
                            ELSE Map(shown, LAMBDA i : About(cs.nodes[i], Q)), tags |-> {}]
Done == /\ st = "walk" /\ todo = <<>>
        /\ results' = Append(results, Answer) /\ q' = q + 1 /\ shown' = <<>>
        /\ st' = IF q = Len(cs.queries) THEN "over" ELSE "ask"
        /\ UNCHANGED <<cs, todo>>
Next == Ask \/ Visit \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- the properties ---- *)
RECURSIVE Under(_, _)
Under(i, p) == \/ p = "" \/ cs.nodes[i].path = p
               \/ cs.nodes[i].up # "" /\ Under(At(cs.nodes[i].up)[1], p)
\* exactly what matches, within the branch and the depth, each once
Exactly == st = "walk" /\ todo = <<>> =>
  /\ Set(shown) = {i \in DOMAIN cs.nodes : /\ Under(i, Q.branch) /\ Matches(cs.nodes[i], Q)
                                           /\ Q.depth = 0 \/ Far(cs.nodes[i], Q) <= Q.depth
                                           /\ Q.kind \in {"one", "api"} => cs.nodes[i].path = Q.branch}
  /\ Len(shown) = Cardinality(Set(shown))
\* one more keyword never finds more, one less never less
Narrowing == st = "walk" /\ Q.kind \in {"find", "list"} =>
  \A i \in DOMAIN cs.nodes, j \in DOMAIN Q.words :
     Matches(cs.nodes[i], Q) => Matches(cs.nodes[i], [Q EXCEPT !.words = SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@))])
\* what must not be seen is never said
Hidden == \A r \in DOMAIN results : \A a \in Set(results[r].about) :
            /\ \A x \in Set(a.args) : x.def = "hush" => (cs.queries[r].bare \/ ~Sensitive(Set(x.names)))
            /\ \A x \in Set(a.val) : x.v = "hush" => (cs.queries[r].bare \/ ~Sensitive({x.k}))
Finishes == <>(st = "over")
=============================================================================
