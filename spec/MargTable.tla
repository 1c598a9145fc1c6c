----------------------------- MODULE MargTable -----------------------------
(***************************************************************************)
(* C13.  Marginal distributions of larger states with integer amplitudes.    *)
(* A case [n, amps |-> sequence of <<basis state, re, im>>, meas]: the       *)
(* machine takes the amplitudes one at a time and adds |a|^2 to the outcome  *)
(* that each sequence of measured qubits reads from the basis state.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV, SequencesExt
Cases == JsonDeserialize(IOEnv.IN)
VARIABLES id, i, total, mg
vars == <<id, i, total, mg>>
C == Cases[id]
BitOf(x, q) == (x \div 2^q) % 2
Key(x, ms) == [k \in 1..Len(ms) |-> BitOf(x, ms[k])]
Init == id \in 1..Len(Cases) /\ i = 1 /\ total = 0 /\ mg = [j \in 1..Len(Cases[id].meas) |-> [k \in {} |-> 0]]
Add(f, k, w) == [x \in DOMAIN f \cup {k} |-> (IF x \in DOMAIN f THEN f[x] ELSE 0) + (IF x = k THEN w ELSE 0)]
Take == /\ i <= Len(C.amps)
        /\ LET a == C.amps[i] w == a[2] * a[2] + a[3] * a[3] IN
             /\ total' = total + w
             /\ mg' = TLCEval([j \in 1..Len(C.meas) |-> Add(mg[j], Key(a[1], C.meas[j]), w)])
        /\ i' = i + 1 /\ UNCHANGED id
Out(f) == LET ks == SetToSeq(DOMAIN f) IN [x \in 1..Len(ks) |-> <<ks[x], f[ks[x]]>>]
Finish == i = Len(C.amps) + 1 /\ i' = i + 1
          /\ CSVWrite("%1$s", <<ToJson([id |-> id, total |-> total, mg |-> [j \in 1..Len(mg) |-> Out(mg[j])]])>>, IOEnv.OUT \o "." \o ToString(id % 128))
          /\ UNCHANGED <<id, total, mg>>
Next == Take \/ Finish
Spec == Init /\ [][Next]_vars
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})
\* every distribution has the whole weight
Total == i = Len(C.amps) + 1 => \A j \in 1..Len(mg) : SumF(mg[j], DOMAIN mg[j]) = total
=============================================================================
