----------------------------- MODULE Separation -----------------------------
(***************************************************************************)
(* C15.  n-body separation, judged on the recorded result.  A case of IN is  *)
(*   [nx |-> problem variables 0..nx-1, na |-> added variables nx..nx+na-1,  *)
(*    e, s, c |-> original, separated and constraint polynomials             *)
(*                (sequences of <<coefficient, variables>>),                 *)
(*    map |-> for each added variable the pair of variables it stands for]   *)
(* The machine visits every assignment of all variables.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils, CSV
Cases == JsonDeserialize(IOEnv.IN)
VARIABLES id, x, bad
vars == <<id, x, bad>>
Case == Cases[id]
B(y, i) == (y \div 2^i) % 2
Val(t, y) == FoldLeft(LAMBDA acc, m : acc + (IF \A i \in 1..Len(m[2]) : B(y, m[2][i]) = 1 THEN m[1] ELSE 0), 0, t)
Consistent(y) == \A k \in 1..Case.na : B(y, Case.nx + k - 1) = B(y, Case.map[k][1]) * B(y, Case.map[k][2])
Quadratic(t) == \A i \in 1..Len(t) : Len(t[i][2]) <= 2
Verdict(y) ==
  IF Consistent(y) THEN (IF Val(Case.c, y) # 0 THEN "a constraint is violated where it should hold"
                         ELSE IF Val(Case.s, y) # Val(Case.e, y) THEN "the separated polynomial has another value" ELSE "")
  ELSE IF Val(Case.c, y) <= 0 THEN "a wrong supplementary variable costs nothing" ELSE ""
Init == id \in 1..Len(Cases) /\ x = 0 /\ bad = (IF Quadratic(Cases[id].s) /\ Quadratic(Cases[id].c) THEN "" ELSE "not quadratic")
Visit == x < 2^(Case.nx + Case.na) /\ bad = "" /\ bad' = Verdict(x) /\ x' = x + 1 /\ UNCHANGED id
Finish == (x = 2^(Case.nx + Case.na) \/ bad # "") /\ x >= 0 /\ x' = -1 /\ UNCHANGED <<id, bad>>
          /\ CSVWrite("%1$s", <<ToJson([id |-> id, bad |-> bad, x |-> x - 1])>>, IOEnv.OUT)
Next == Visit \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
