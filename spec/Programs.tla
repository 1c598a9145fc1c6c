------------------------------ MODULE Programs ------------------------------
(***************************************************************************)
(* Executes circuits exactly.  Each behaviour is one run of one program of  *)
(* the batch read from the file named by the environment variable IN:       *)
(*   [n, x, ops, d, l, k]: n qubits, basis state x (-1: the Choi state, so  *)
(*   that one run yields the whole unitary), operations ops, then the       *)
(*   inverse of the operations d, then the OpenQASM statements l, then the  *)
(*   tokens k: pairs <<operation, 1 if inverted>>.                          *)
(* Unitary operations are one step; a measurement or reset is one step per  *)
(* target qubit, branching over the outcomes of non-zero probability.       *)
(* Terminal states are written to the file named by OUT (one JSON line).    *)
(***************************************************************************)
EXTENDS Gates, Json, IOUtils, CSV

Progs == JsonDeserialize(IOEnv.IN)

VARIABLES pid, pc, tq, st, creg, hist
vars == <<pid, pc, tq, st, creg, hist>>

Prog == Progs[pid]
Ops == Prog.ops \o DaggerOps(Prog.d) \o QasmOps(Prog.l)
       \o [i \in 1..Len(Prog.k) |-> IF Prog.k[i][2] = 1 THEN DaggerOp(Prog.k[i][1]) ELSE Prog.k[i][1]]
Nq == Prog.n

Init == /\ pid \in 1..Len(Progs)
        /\ pc = 1 /\ tq = 1
        /\ st = IF Progs[pid].x = -1 THEN ChoiInit(Progs[pid].n) ELSE Basis(Progs[pid].x)
        /\ creg = [i \in 1..Progs[pid].n |-> 0]
        /\ hist = <<>>

Cur == Ops[pc]
CurG == Alias(Cur.g)
CurT == OpTargets(Cur, Nq)

Running == pc >= 1 /\ pc <= Len(Ops)

StepUnitary ==
  /\ Running /\ CurT.ok /\ CurG \in Unitary \cup PauliOps
  /\ st' = ApplyOp(st, Cur, Nq)
  /\ pc' = pc + 1 /\ UNCHANGED <<pid, tq, creg, hist>>

Advance == IF tq >= Len(CurT.q) THEN pc' = pc + 1 /\ tq' = 1 ELSE pc' = pc /\ tq' = tq + 1

StepEmptyTargets ==
  /\ Running /\ CurT.ok /\ CurG \in MeasQ /\ Len(CurT.q) = 0
  /\ pc' = pc + 1 /\ UNCHANGED <<pid, tq, st, creg, hist>>

StepMeasure(b) ==
  /\ Running /\ CurT.ok /\ CurG = "measure" /\ tq <= Len(CurT.q)
  /\ LET i == CurT.q[tq][1]
         p == Project(st, i, b)
     IN  /\ ~IsZero(p)
         /\ st' = p
         /\ creg' = [creg EXCEPT ![i + 1] = b]
  /\ Advance /\ hist' = Append(hist, b) /\ UNCHANGED pid

StepReset(b) ==
  /\ Running /\ CurT.ok /\ CurG = "reset" /\ tq <= Len(CurT.q)
  /\ LET i == CurT.q[tq][1]
         p == ResetTo0(st, i, b)
     IN  /\ ~IsZero(p)
         /\ st' = p
  /\ Advance /\ hist' = Append(hist, b) /\ UNCHANGED <<pid, creg>>

PolyOut(p) == LET ks == SetToSeq(DOMAIN p) IN [i \in 1..Len(ks) |-> <<ks[i], p[ks[i]]>>]
StateOut(v) == LET xs == SetToSeq(DOMAIN v.a) IN [i \in 1..Len(xs) |-> <<xs[i], PolyOut(v.a[xs[i]])>>]

Emit(r) == CSVWrite("%1$s", <<ToJson(r)>>, IOEnv.OUT \o "." \o ToString(pid % 128))

Finish ==
  /\ pc = Len(Ops) + 1
  /\ pc' = Len(Ops) + 2
  /\ Emit([p |-> pid, ok |-> TRUE, c |-> creg, h |-> hist, s |-> st.s, a |-> StateOut(st)])
  /\ UNCHANGED <<pid, tq, st, creg, hist>>

Fail ==
  /\ Running /\ ~CurT.ok
  /\ pc' = 0
  /\ Emit([p |-> pid, ok |-> FALSE, at |-> pc])
  /\ UNCHANGED <<pid, tq, st, creg, hist>>

Next == StepUnitary \/ StepEmptyTargets \/ (\E b \in {0, 1} : StepMeasure(b) \/ StepReset(b)) \/ Finish \/ Fail
Spec == Init /\ [][Next]_vars

\* ---- invariants (hold for every value of the symbolic angles) ----------
W == IF Prog.x = -1 THEN Pow2(Nq) ELSE 1
NormOK == (hist = <<>>) => HasNorm(st, W)
\* a reported bit agrees with the state: the last measured value of a qubit not
\* touched since is the only value the qubit can have
MeasureSplits ==
  [][ (\E b \in {0,1} : StepMeasure(b)) => 
        LET i == CurT.q[tq][1] IN PAdd(PScale(Norm2(Project(st, i, 0)), Pow2(Project(st,i,1).s)),
                                       PScale(Norm2(Project(st, i, 1)), Pow2(Project(st,i,0).s)))
             = PScale(Norm2(st), Pow2(Project(st,i,0).s + Project(st,i,1).s - st.s)) ]_vars
CregBits == \A i \in 1..Len(creg) : creg[i] \in {0, 1}
=============================================================================
