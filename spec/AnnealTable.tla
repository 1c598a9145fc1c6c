---------------------------- MODULE AnnealTable ----------------------------
(* The single-flip energy differences and local minima of every state of a   *)
(* QUBO, for the statistical comparison of the annealers (C16).              *)
EXTENDS Anneal
TInit == id \in 1..Len(Cases) /\ i = 1 /\ a = 0 /\ x = 0
Visit == x < 2^M(Case) /\ x' = x + 1 /\ UNCHANGED <<id, i, a>>
         /\ CSVWrite("%1$s", <<ToJson([id |-> id, x |-> x, e |-> Tab[id][x], d |-> [k \in 1..M(Case) |-> D(x, k - 1)], min |-> LocalMin(x)])>>, IOEnv.OUT)
TSpec == TInit /\ [][Visit]_vars
\* flipping is an involution and the differences are antisymmetric
AntiOK == x < 2^M(Case) => \A k \in 0..(M(Case) - 1) : Flip(Flip(x, k), k) = x /\ D(Flip(x, k), k) = -D(x, k)
=============================================================================
