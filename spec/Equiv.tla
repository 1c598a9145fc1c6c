------------------------------- MODULE Equiv -------------------------------
(***************************************************************************)
(* Translation validation: two descriptions of a circuit denote the same    *)
(* unitary for EVERY value of the symbolic angles.  IN holds a sequence of  *)
(*   [n, phase, l, r]  with l, r of the form [k, ops]:                      *)
(*     k = "ops"    a list of operations of the gate set                    *)
(*     k = "dagger" the inverse of such a list                              *)
(*     k = "qasm"   OpenQASM statements [g, p, q] read with qelib1.inc      *)
(* phase = TRUE allows one global phase factor.                             *)
(***************************************************************************)
EXTENDS Gates, Json, IOUtils, CSV
Cases == JsonDeserialize(IOEnv.IN)
VARIABLES pid, l, r, verdict
vars == <<pid, l, r, verdict>>

KnownLines(s) == s.k # "qasm" \/ \A i \in 1..Len(s.ops) : s.ops[i].g \in QasmNative
Meaning(s) == CASE s.k = "ops" -> s.ops [] s.k = "dagger" -> DaggerOps(s.ops) [] s.k = "qasm" -> QasmOps(s.ops)
          [] s.k = "cat" -> FlattenSeq([i \in 1..Len(s.parts) |-> 
                              CASE s.parts[i].k = "ops" -> s.parts[i].ops
                                [] s.parts[i].k = "dagger" -> DaggerOps(s.parts[i].ops)])
Case == Cases[pid]

Init == pid \in 1..Len(Cases) /\ l = <<>> /\ r = <<>> /\ verdict = "todo"
EvalLeft ==
  /\ verdict = "todo" /\ l = <<>>
  /\ IF KnownLines(Case.l) /\ OpsOK(Meaning(Case.l), Case.n)
     THEN l' = Canon(ApplyOps(ChoiInit(Case.n), Meaning(Case.l), Case.n)) /\ verdict' = "todo"
     ELSE l' = l /\ verdict' = "invalid"
  /\ UNCHANGED <<pid, r>>
EvalRight ==
  /\ verdict = "todo" /\ l # <<>> /\ r = <<>>
  /\ IF KnownLines(Case.r) /\ OpsOK(Meaning(Case.r), Case.n)
     THEN r' = Canon(ApplyOps(ChoiInit(Case.n), Meaning(Case.r), Case.n)) /\ verdict' = "todo"
     ELSE r' = r /\ verdict' = "invalid"
  /\ UNCHANGED <<pid, l>>
Decide ==
  /\ verdict = "todo" /\ r # <<>>
  /\ verdict' = (IF Case.phase THEN (IF SamePhase(l, r) THEN "same" ELSE "differ")
                               ELSE (IF l = r THEN "same" ELSE "differ"))
  /\ UNCHANGED <<pid, l, r>>
Emit ==
  /\ verdict \in {"same", "differ", "invalid"}
  /\ CSVWrite("%1$s", <<ToJson([p |-> pid, v |-> verdict])>>, IOEnv.OUT)
  /\ verdict' = "done"
  /\ l' = <<>> /\ r' = <<>> /\ UNCHANGED pid
Next == EvalLeft \/ EvalRight \/ Decide \/ Emit
Spec == Init /\ [][Next]_vars
UnitaryL == (l # <<>>) => HasNorm(l, Pow2(Case.n))
UnitaryR == (r # <<>>) => HasNorm(r, Pow2(Case.n))
=============================================================================
