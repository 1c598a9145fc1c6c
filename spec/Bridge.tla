------------------------------- MODULE Bridge -------------------------------
(***************************************************************************)
(* The bridge to a foreign simulator (C23).  A circuit is handed over        *)
(* operation by operation; every operation becomes one foreign operation per *)
(* resolved target (pair), with a kind, an adjoint flag, controls, targets.  *)
(* Sampling: the foreign simulator samples the measured qubits in ascending  *)
(* order as integers, bit j belonging to the j-th of them; a key has one     *)
(* character per qubit, the i-th being qubit i's bit, "0" if not measured.   *)
(* IN: sequence of [n, ops].                                                 *)
(***************************************************************************)
EXTENDS Gates, Json, IOUtils, CSV
Progs == JsonDeserialize(IOEnv.IN)
VARIABLES id, pc, out, measured
vars == <<id, pc, out, measured>>

Kind(g) == CASE g = "i" -> "ID" [] g = "x" -> "X" [] g = "y" -> "Y" [] g = "z" -> "Z" [] g = "h" -> "H"
             [] g \in {"t", "tdg"} -> "T" [] g \in {"s", "sdg"} -> "S"
             [] g = "cz" -> "Z" [] g = "cx" -> "X" [] g = "ccx" -> "X"
             [] g \in {"rx", "crx"} -> "RX" [] g \in {"ry", "cry"} -> "RY" [] g \in {"rz", "crz", "u1"} -> "RZ"
             [] g \in {"phase", "cphase", "cu1"} -> "U1" [] g \in {"u2", "cu2"} -> "U2" [] g \in {"u3", "cu3"} -> "U"
             [] g = "swap" -> "SWAP" [] g = "measure" -> "MEASURE" [] OTHER -> "NONE"
NCtrl(g) == CASE g \in {"cz", "cx", "crx", "cry", "crz", "cphase", "cu1", "cu2", "cu3"} -> 1 [] g = "ccx" -> 2 [] OTHER -> 0
Adj(g) == g \in {"tdg", "sdg"}
Supported(g) == Kind(g) # "NONE"

P == Progs[id]
Init == id \in 1..Len(Progs) /\ pc = 1 /\ out = <<>> /\ measured = {}
Hand(op, i) ==
  LET g == Alias(op.g)
      k == NCtrl(g)
      r == OpTargets(op, P.n).q
  IN  [j \in 1..Len(r) |-> [kind |-> Kind(g), op |-> i, adj |-> Adj(g),
                            c |-> SubSeq(r[j], 1, k), t |-> SubSeq(r[j], k + 1, Len(r[j]))]]
Step == /\ pc >= 1 /\ pc <= Len(P.ops)
        /\ Supported(Alias(P.ops[pc].g)) /\ OpTargets(P.ops[pc], P.n).ok
        /\ out' = out \o Hand(P.ops[pc], pc)
        /\ measured' = IF Alias(P.ops[pc].g) = "measure" THEN measured \cup {OpTargets(P.ops[pc], P.n).q[j][1] : j \in 1..Len(OpTargets(P.ops[pc], P.n).q)}
                       ELSE measured
        /\ pc' = pc + 1 /\ UNCHANGED id
Rank(q) == Cardinality({x \in measured : x < q})
RECURSIVE SBit(_, _)
SBit(v, j) == IF j = 0 THEN v % 2 ELSE SBit(v \div 2, j - 1)
Key(v) == [i \in 1..P.n |-> IF (i - 1) \in measured THEN SBit(v, Rank(i - 1)) ELSE 0]
Finish == /\ pc = Len(P.ops) + 1 /\ pc' = 0
          /\ CSVWrite("%1$s", <<ToJson([id |-> id, out |-> out, m |-> SetToSeq(measured),
                keys |-> [v \in 1..Pow2(Cardinality(measured)) |-> Key(v - 1)]])>>, IOEnv.OUT \o "." \o ToString(id % 128))
          /\ UNCHANGED <<id, out, measured>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
InRange == \A j \in 1..Len(out) : LET q == out[j].c \o out[j].t IN
             (\A a \in 1..Len(q) : q[a] \in 0..(P.n - 1)) /\ (\A a, b \in 1..Len(q) : a # b => q[a] # q[b])
KeysDiffer == pc = Len(P.ops) + 1 => \A v, w \in 0..(Pow2(Cardinality(measured)) - 1) : v # w => Key(v) # Key(w)
NothingLost == [][Len(out') >= Len(out) /\ SubSeq(out', 1, Len(out)) = out]_vars
=============================================================================
