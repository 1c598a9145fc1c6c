------------------------------ MODULE QaoaPlan ------------------------------
(***************************************************************************)
(* C14, large problems.  The layers of Qaoa.tla without the state: a case    *)
(*   [n |-> qubits, steps |-> s, h |-> number of terms, std, mix |-> number] *)
(* has one behaviour, which writes the evolutions in order: <<"init">>, then *)
(* per step <<"cost", i, k>> for every term i under angle 2 pi gamma_k, and  *)
(* <<"rx", q, k>> for every qubit or <<"mix", i, k>> for every mixer term    *)
(* under pi beta_k.  gamma_k is parameter s + k, beta_k is parameter k.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
Cases == JsonDeserialize(IOEnv.IN)
VARIABLES id, k, ph, i, plan
vars == <<id, k, ph, i, plan>>
C == Cases[id]
Init == id \in 1..Len(Cases) /\ k = 1 /\ ph = "cost" /\ i = 1 /\ plan = <<<<"init", 0, 0>>>>
MixLen == IF C.std THEN C.n ELSE C.mix
Cost == ph = "cost" /\ k <= C.steps /\ i <= C.h /\ plan' = Append(plan, <<"cost", i, C.steps + k>>) /\ i' = i + 1 /\ UNCHANGED <<id, k, ph>>
CostDone == ph = "cost" /\ k <= C.steps /\ i = C.h + 1 /\ ph' = "mix" /\ i' = 1 /\ UNCHANGED <<id, k, plan>>
Mix == ph = "mix" /\ i <= MixLen /\ i' = i + 1 /\ UNCHANGED <<id, k, ph>>
       /\ plan' = Append(plan, IF C.std THEN <<"rx", i - 1, k>> ELSE <<"mix", i, k>>)
MixDone == ph = "mix" /\ i = MixLen + 1 /\ ph' = "cost" /\ k' = k + 1 /\ i' = 1 /\ UNCHANGED <<id, plan>>
Finish == ph = "cost" /\ k = C.steps + 1 /\ ph' = "end"
          /\ CSVWrite("%1$s", <<ToJson([id |-> id, plan |-> plan])>>, IOEnv.OUT \o "." \o ToString(id % 128))
          /\ UNCHANGED <<id, k, i, plan>>
Next == Cost \/ CostDone \/ Mix \/ MixDone \/ Finish
Spec == Init /\ [][Next]_vars
\* every parameter drives its layer, and every element of a layer appears once per step
Complete == ph = "end" =>
  /\ Len(plan) = 1 + C.steps * (C.h + MixLen)
  /\ \A s \in 1..C.steps :
       /\ Cardinality({x \in 2..Len(plan) : plan[x][1] = "cost" /\ plan[x][3] = C.steps + s}) = C.h
       /\ Cardinality({x \in 2..Len(plan) : plan[x][1] # "cost" /\ plan[x][3] = s}) = MixLen
=============================================================================
