------------------------------- MODULE Anneal -------------------------------
(***************************************************************************)
(* C16.  Single-spin-flip annealing as a transition system, and the          *)
(* validation of recorded runs against it.  A case of IN is                  *)
(*   [n    |-> variables, p |-> replicas (1 for SA),                         *)
(*    q    |-> integer QUBO matrix,                                          *)
(*    w    |-> 1000 * T log coth(G/(T p)), replica coupling (0 for SA), even *)
(*    tol  |-> rounding tolerance of the energies (0 for SA),                *)
(*    obs  |-> 1000 * the recorded energies, at the start and after every    *)
(*             temperature (field) step,                                     *)
(*    t    |-> 1000 * the temperature of each step,                          *)
(*    ite  |-> spin-flip attempts per step,                                  *)
(*    last |-> the returned state as a number, bit i + n*r being variable i  *)
(*             of replica r]                                                 *)
(* A recorded run is accepted when some behaviour of the transition system   *)
(* shows exactly the recorded energies and ends in the returned state.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils, CSV
Cases == JsonDeserialize(IOEnv.IN)
VARIABLES id, i,   \* the case; number of recorded energies explained so far
          a,       \* attempts made in the current step
          x        \* the state
vars == <<id, i, a, x>>
Case == Cases[id]
B(y, k) == (y \div 2^k) % 2
S(y, k) == 2 * B(y, k) - 1
SumTo(f(_), k) == FoldLeft(LAMBDA acc, e : acc + f(e), 0, [h \in 1..k |-> h])
Abs(v) == IF v < 0 THEN -v ELSE v

\* 1000 * energy of state y of case c
En(c, y) ==
  (1000 \div c.p) * SumTo(LAMBDA r : SumTo(LAMBDA k : SumTo(LAMBDA l :
       c.q[k][l] * B(y, (k - 1) + c.n * (r - 1)) * B(y, (l - 1) + c.n * (r - 1)), c.n), c.n), c.p)
  - (c.w \div 2) * SumTo(LAMBDA r : SumTo(LAMBDA k : S(y, (k - 1) + c.n * (r - 1)) * S(y, (k - 1) + c.n * (r % c.p)), c.n), c.p)
M(c) == c.n * c.p
Flip(y, k) == IF B(y, k) = 1 THEN y - 2^k ELSE y + 2^k
\* the energies of every case, computed once
Tab == TLCEval([c \in 1..Len(Cases) |-> TLCEval([y \in 0..(2^M(Cases[c]) - 1) |-> En(Cases[c], y)])])
D(y, k) == Tab[id][Flip(y, k)] - Tab[id][y]
Tol == Case.tol
Matches(y, k) == Abs(Tab[id][y] - Case.obs[k]) <= Tol
LocalMin(y) == \A k \in 0..(M(Case) - 1) : D(y, k) >= 0

Init == id \in 1..Len(Cases) /\ i = 1 /\ a = 0 /\ x \in {y \in 0..(2^M(Cases[id]) - 1) : Abs(Tab[id][y] - Cases[id].obs[1]) <= Cases[id].tol}

Running == i < Len(Case.obs)
\* Metropolis: a downhill move is always taken, an uphill one with probability
\* exp(-dE/T), which is below 1e-30 where it is excluded here
MayMove(k) == D(x, k) <= Tol + 70 * Case.t[i]
MayStay(k) == D(x, k) >= -Tol
Tick(y) == IF a + 1 < Case.ite THEN a' = a + 1 /\ i' = i ELSE a' = 0 /\ i' = i + 1 /\ Matches(y, i + 1)
Attempt == \E k \in 0..(M(Case) - 1) :
             \/ MayMove(k) /\ x' = Flip(x, k) /\ Tick(Flip(x, k))
             \/ MayStay(k) /\ x' = x /\ Tick(x)
Step == Running /\ Attempt /\ UNCHANGED id
Accept == i = Len(Case.obs) /\ x = Case.last /\ i' = i + 1 /\ UNCHANGED <<id, a, x>>
          /\ CSVWrite("%1$s", <<ToJson([id |-> id, ok |-> TRUE])>>, IOEnv.OUT)
Next == Step \/ Accept
Spec == Init /\ [][Next]_vars

\* with a frozen temperature the energy never rises
Frozen(k) == Case.t[k] = 0
DownhillOK == [][ (i < Len(Case.obs) /\ Frozen(i)) => Tab[id][x'] <= Tab[id][x] + Tol ]_vars
StateOK == x \in 0..(2^M(Case) - 1) /\ a \in 0..Case.ite
=============================================================================
