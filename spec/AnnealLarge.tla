---------------------------- MODULE AnnealLarge ----------------------------
(***************************************************************************)
(* C16, large problems.  A case [q |-> integer QUBO, b |-> a returned state]:*)
(* the machine adds up the energy row by row and writes the energy of the    *)
(* state and the change that each single flip makes, for the monitor: the    *)
(* recorded energy of a result is its energy, and a quench ends in a state   *)
(* no flip improves.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV, SequencesExt
Cases == JsonDeserialize(IOEnv.IN)
VARIABLES id, i, e, d
vars == <<id, i, e, d>>
C == Cases[id]
N == Len(C.b)
Sum(f) == FoldLeft(LAMBDA a, x : a + x, 0, f)
Init == id \in 1..Len(Cases) /\ i = 1 /\ e = 0 /\ d = <<>>
Row == /\ i <= N
       /\ e' = e + C.b[i] * Sum([j \in 1..N |-> C.q[i][j] * C.b[j]])
       /\ d' = Append(d, (1 - 2 * C.b[i]) * (C.q[i][i] + Sum([j \in 1..N |-> IF j = i THEN 0 ELSE (C.q[i][j] + C.q[j][i]) * C.b[j]])))
       /\ i' = i + 1 /\ UNCHANGED id
Finish == i = N + 1 /\ i' = i + 1 /\ UNCHANGED <<id, e, d>>
          /\ CSVWrite("%1$s", <<ToJson([id |-> id, e |-> e, d |-> d])>>, IOEnv.OUT \o "." \o ToString(id % 128))
Next == Row \/ Finish
Spec == Init /\ [][Next]_vars
\* flipping a bit twice changes nothing: for the first bit, the energy after the flip minus d is the energy
Energy(b) == Sum([r \in 1..N |-> b[r] * Sum([j \in 1..N |-> C.q[r][j] * b[j]])])
FlipOK == i = N + 1 => LET b2 == [C.b EXCEPT ![1] = 1 - @] IN Energy(b2) = e + d[1] /\ Energy(C.b) = e
=============================================================================
