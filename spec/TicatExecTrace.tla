--------------------------- MODULE TicatExecTrace ---------------------------
(***************************************************************************)
(* Trace validation for TicatExec: cases.json holds cases together with    *)
(* what the real ticat did (obs).  cmp says which parts of the visible     *)
(* behaviour are compared.  A case is accepted when the machine can finish *)
(* with exactly that behaviour; one verdict is printed per finished run.   *)
(***************************************************************************)
EXTENDS TicatExec, Json, TLCExt

TraceCases == Range(JsonDeserialize("cases.json"))
Compares(x) == \E i \in 1..Len(C.cmp) : C.cmp[i] = x

\* what a property looks at
Order(r) == [i \in 1..Len(r) |-> r[i].c]
ArgsOf(r) == [i \in 1..Len(r) |-> <<r[i].c, r[i].a>>]
SEnv(r) == [i \in 1..Len(r) |-> <<r[i].c, r[i].s>>]
RecShape(r) == [i \in 1..Len(r) |-> <<r[i].e, r[i].c, r[i].r>>]
IsBound(x) == x.e \in {"start", "end"}
IsStart(x) == x.e = "start"
RecEnv(r) == LET q == SelectSeq(r, IsBound) IN [i \in 1..Len(q) |-> <<q[i].e, q[i].c, q[i].s>>]
RecStartEnv(r) == LET q == SelectSeq(r, IsStart) IN [i \in 1..Len(q) |-> <<q[i].c, q[i].s>>]
IsDone(x) == x.e = "done"
\* how far the record was when a program started
RecAt(r) == [i \in 1..Len(r) |-> <<r[i].c, r[i].at>>]
RecDone(r) == LET q == SelectSeq(r, IsDone) IN [i \in 1..Len(q) |-> q[i].r]

\* the machine may not run ahead of what was observed
Follows ==
  /\ Compares("order") => IsPrefix(Order(runs), Order(C.obs.runs))
  /\ Compares("args") => IsPrefix(ArgsOf(runs), ArgsOf(C.obs.runs))
  /\ Compares("senv") => IsPrefix(SEnv(runs), SEnv(C.obs.runs))
  /\ Compares("recshape") => IsPrefix(RecShape(rec), RecShape(C.obs.rec))
  /\ Compares("recenv") => IsPrefix(RecEnv(rec), RecEnv(C.obs.rec))
  /\ Compares("recstartenv") => IsPrefix(RecStartEnv(rec), RecStartEnv(C.obs.rec))

Same ==
  /\ Compares("order") => Order(runs) = Order(C.obs.runs)
  /\ Compares("args") => ArgsOf(runs) = ArgsOf(C.obs.runs)
  /\ Compares("senv") => SEnv(runs) = SEnv(C.obs.runs)
  /\ Compares("recshape") => RecShape(rec) = RecShape(C.obs.rec)
  /\ Compares("recenv") => RecEnv(rec) = RecEnv(C.obs.rec)
  /\ Compares("recstartenv") => RecStartEnv(rec) = RecStartEnv(C.obs.rec)
  /\ Compares("recat") => RecAt(runs) = RecAt(C.obs.runs)
  /\ Compares("recdone") => RecDone(rec) = RecDone(C.obs.rec)
  /\ Compares("anything") => (runs # <<>>) = (C.obs.runs # <<>>)
  /\ Compares("okness") => (rc = 0) = (C.obs.rc = 0)
  /\ Compares("rc") => rc = C.obs.rc
  \* refused: nothing stored has changed
  /\ Compares("stored") => (frames # <<>> \/ "stored" \notin DOMAIN C.obs \/ ~C.obs.stored)

Verdict ==
  IF phase = "done" /\ Compares("show") THEN PrintT(ToJson([t |-> C.id, ok |-> FALSE, runs |-> runs, rec |-> rec, rc |-> rc]))
  ELSE IF phase = "done" /\ Same THEN PrintT(ToJson([t |-> C.id, ok |-> TRUE]))
  ELSE TRUE
=============================================================================
