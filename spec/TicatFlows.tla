----------------------------- MODULE TicatFlows -----------------------------
(***************************************************************************)
(* The saved flows: what the flow commands do to them, and what is run     *)
(* under their names.                                                      *)
(*                                                                         *)
(* A case: [leaves, names, above, linked, init, steps]                     *)
(*   leaves  names of ordinary commands                                    *)
(*   names   sequence of the names of flows, lower ones first              *)
(*   above   records [n, m]: the path of n is the beginning of m's         *)
(*   linked  the directory D is in the hub                                 *)
(*   init    flows in D at first, records [n, seq]                         *)
(*   steps   one flow command per invocation:                              *)
(*     save n seq help ans | rename n to ans | rm n | clear | help n help  *)
(*     | move (all flows to D, given in full or by text of its path)       *)
(*     | moveamb (the text given names more than one directory, or none)   *)
(*     | saveto n seq help ans (save straight to D)                        *)
(*   and besides                                                           *)
(*     | edit n (by hand: the flow in the store gets an argument `kk`)     *)
(*   ans     what the user says when asked: "yes", "no" or, where the      *)
(*           command has that, "quiet" (overwrite without asking)          *)
(* Sequences hold leaves and lower names only, so flows never call         *)
(* themselves.                                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Cases

VARIABLES c, at, store, dir, obs
vars == <<c, at, store, dir, obs>>

\* store, dir: name -> [seq, help, own]
\*   own: declares the argument `kk`
NOFLOWS == [x \in {} |-> <<>>]
Without(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
Leaves == Range(c.leaves)
FlowsIn(st, d) == DOMAIN st \cup (IF c.linked THEN DOMAIN d ELSE {})
\* names which are no commands, but the beginning of others' paths
Branches(st, d) == {n \in Range(c.names) : \E i \in 1..Len(c.above) : c.above[i].n = n /\ c.above[i].m \in FlowsIn(st, d)}
NamesIn(st, d) == Leaves \cup FlowsIn(st, d) \cup Branches(st, d)
CmdNames == NamesIn(store, dir)

\* the leaves run by a sequence, given the flows; a name that is no command
\* refuses the whole
RECURSIVE Runs(_, _, _, _)
Runs(st, d, seq, i) ==
  IF i > Len(seq) THEN [ok |-> TRUE, l |-> <<>>]
  ELSE LET s == seq[i]
           h == IF s \in Leaves THEN [ok |-> TRUE, l |-> <<s>>]
                ELSE IF s \notin NamesIn(st, d) THEN [ok |-> FALSE, l |-> <<>>]
                ELSE IF s \notin FlowsIn(st, d) THEN [ok |-> TRUE, l |-> <<>>]
                ELSE Runs(st, d, IF s \in DOMAIN st THEN st[s].seq ELSE d[s].seq, 1)
           t == Runs(st, d, seq, i + 1)
       IN [ok |-> h.ok /\ t.ok, l |-> h.l \o t.l]
RunOf(st, d, n) == LET r == Runs(st, d, <<n>>, 1) IN IF r.ok THEN r.l ELSE <<"refused">>

\* `n kk=3` is a call of n with an argument it has
Takes(st, d, n) == n \in FlowsIn(st, d) /\ (IF n \in DOMAIN st THEN st[n].own ELSE d[n].own)

Step == c.steps[at]
Init ==
  /\ c \in Cases
  /\ at = 1
  /\ store = NOFLOWS
  /\ dir = [n \in {c.init[i].n : i \in 1..Len(c.init)} |->
              [seq |-> c.init[CHOOSE i \in 1..Len(c.init) : c.init[i].n = n].seq, help |-> "", own |-> FALSE]]
  /\ obs = <<>>

Pos(n) == CHOOSE i \in 1..Len(c.names) : c.names[i] = n
\* what can be seen of a state (all flows are run after every third command
\* and after the last one)
Look(ok, st, d) ==
  (IF at % 3 = 0 \/ at = Len(c.steps)
   THEN [runs |-> [n \in Range(c.names) |-> RunOf(st, d, n)],
         takes |-> SetToSortSeq({n \in Range(c.names) : RunOf(st, d, n) \notin {<<>>, <<"refused">>} /\ Takes(st, d, n)}, LAMBDA x, y : Pos(x) < Pos(y))]
   ELSE <<>>) @@
  [ok |-> ok,
   store |-> SetToSortSeq({<<n, st[n].help>> : n \in DOMAIN st}, LAMBDA x, y : Pos(x[1]) < Pos(y[1])),
   dir |-> SetToSortSeq(DOMAIN d, LAMBDA x, y : Pos(x) < Pos(y))]

Done(ok) == /\ at' = at + 1 /\ obs' = Append(obs, Look(ok, store', dir')) /\ UNCHANGED c
Refused == UNCHANGED <<store, dir>> /\ Done(FALSE)

Known(seq) == \A i \in 1..Len(seq) : seq[i] \in CmdNames
Saved == [seq |-> Step.seq, help |-> Step.help, own |-> FALSE]
Save ==
  /\ Step.op = "save"
  /\ LET n == Step.n
         exists == n \in DOMAIN store
         \* asked about overwriting, and about a sequence which can't be parsed
         asks == (IF exists /\ Step.ans # "quiet" THEN 1 ELSE 0) + (IF Known(Step.seq) THEN 0 ELSE 1)
         agreed == asks = 0 \/ (asks = 1 /\ Step.ans = "yes")
     IN IF (~exists /\ n \in CmdNames) \/ ~agreed THEN Refused
        ELSE /\ store' = (n :> Saved) @@ store
             /\ UNCHANGED dir /\ Done(TRUE)
SaveTo ==
  /\ Step.op = "saveto"
  /\ LET n == Step.n
         exists == n \in DOMAIN dir
         asks == (IF exists /\ Step.ans # "quiet" THEN 1 ELSE 0) + (IF Known(Step.seq) THEN 0 ELSE 1)
         agreed == asks = 0 \/ (asks = 1 /\ Step.ans = "yes")
     IN IF (~exists /\ n \in CmdNames) \/ ~agreed THEN Refused
        ELSE /\ dir' = (n :> Saved) @@ dir
             /\ UNCHANGED store /\ Done(TRUE)
Rename ==
  /\ Step.op = "rename"
  /\ LET n == Step.n
         to == Step.to
     IN IF n \notin DOMAIN store THEN Refused
        ELSE IF to = n THEN UNCHANGED <<store, dir>> /\ Done(TRUE)
        ELSE IF (to \in DOMAIN store /\ Step.ans # "yes") \/ (to \notin DOMAIN store /\ to \in CmdNames) THEN Refused
        ELSE /\ store' = (to :> store[n]) @@ Without(store, n)
             /\ UNCHANGED dir /\ Done(TRUE)
RemoveFlow ==
  /\ Step.op = "rm"
  /\ IF Step.n \notin DOMAIN store THEN Refused
     ELSE store' = Without(store, Step.n) /\ UNCHANGED dir /\ Done(TRUE)
Clear ==
  /\ Step.op = "clear"
  /\ store' = NOFLOWS /\ UNCHANGED dir /\ Done(TRUE)
SetHelp ==
  /\ Step.op = "help"
  /\ IF Step.n \notin DOMAIN store THEN Refused
     ELSE store' = [store EXCEPT ![Step.n].help = Step.help] /\ UNCHANGED dir /\ Done(TRUE)
Move ==
  /\ Step.op = "move"
  /\ IF DOMAIN store \cap DOMAIN dir # {} THEN Refused
     ELSE dir' = store @@ dir /\ store' = NOFLOWS /\ Done(TRUE)

MoveAmb == Step.op = "moveamb" /\ Refused
Edit ==
  /\ Step.op = "edit"
  /\ store' = IF Step.n \in DOMAIN store THEN [store EXCEPT ![Step.n].own = TRUE] ELSE store
  /\ UNCHANGED dir /\ Done(TRUE)

Next == at <= Len(c.steps) /\ (Save \/ SaveTo \/ MoveAmb \/ Edit \/ Rename \/ RemoveFlow \/ Clear \/ SetHelp \/ Move)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AllDone == at > Len(c.steps)

--------------------------------------------------------------------------
All == {[n |-> n, w |-> "s", f |-> store[n]] : n \in DOMAIN store} \cup {[n |-> n, w |-> "d", f |-> dir[n]] : n \in DOMAIN dir}
\* no two flows of a name, unless the directory is of no concern
NoDoubles == c.linked => DOMAIN store \cap DOMAIN dir = {}
\* a command or flow is there whatever is saved under its path
NothingHidden == Leaves \cup FlowsIn(store, dir) \subseteq CmdNames
NeverShadows == DOMAIN store \cap Leaves = {}
\* only the named flow changes; what is replaced was agreed to be
OnlyNamed ==
  [][ \A n \in DOMAIN store : (n \notin DOMAIN store' \/ store'[n] # store[n]) =>
        \/ Step.op \in {"clear", "move"}
        \/ Step.n = n
        \/ Step.op = "rename" /\ Step.to = n /\ Step.ans = "yes" ]_vars
\* flows are only lost by removing or agreed replacing
Kept ==
  [][ \A n \in DOMAIN store : (\A m \in DOMAIN store' : store'[m].seq # store[n].seq) /\ (\A m \in DOMAIN dir' : dir'[m].seq # store[n].seq) =>
        Step.op \in {"rm", "clear"} \/ Step.ans \in {"yes", "quiet"} ]_vars
DirKept == [][ \A n \in DOMAIN dir : n \in DOMAIN dir' /\ (dir'[n] = dir[n] \/ (Step.op = "saveto" /\ Step.n = n /\ Step.ans # "no")) ]_vars
\* a help string is not more than that
HelpOnly == [][ Step.op = "help" => \A n \in DOMAIN store : [store'[n] EXCEPT !.help = store[n].help] = store[n] ]_vars
RefusedChangesNothing == [][ ~obs'[Len(obs')].ok => UNCHANGED <<store, dir>> ]_vars
=============================================================================
