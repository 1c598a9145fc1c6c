----------------------------- MODULE PauliWide -----------------------------
(***************************************************************************)
(* C10, large operators.  A case of IN is [f |-> sequence of factors], each  *)
(* factor a sequence of written-out terms                                    *)
(*   [c |-> <<re, im, e>>, ops |-> sequence of <<letter, qubit>>].            *)
(* The machine adds up the terms of each factor, one by one, and multiplies  *)
(* the factors.  Operators here have many more terms and qubits than those   *)
(* of PauliSM.                                                               *)
(***************************************************************************)
EXTENDS PauliAlg, Json, IOUtils, CSV
Cases == JsonDeserialize(IOEnv.IN)
VARIABLES id, k, i, sum, prod, fs
vars == <<id, k, i, sum, prod, fs>>
F == Cases[id].f
MulOps(c, ops) == LET Step(acc, o) == IF o[1] = 0 THEN acc
                        ELSE LET s == acc[1] t == [IdS EXCEPT ![o[2] + 1] = o[1]]
                             IN  <<TLCEval(SProd(s, t)), (acc[2] + SPhase(s, t)) % 4>>
                      r == FoldLeft(Step, <<IdS, 0>>, ops)
                  IN  Mk(c[3], [s \in {r[1]} |-> CMul(<<c[1], c[2]>>, CI(r[2]))])
Init == id \in 1..Len(Cases) /\ k = 1 /\ i = 1 /\ sum = Zero /\ prod = One /\ fs = <<>>
AddTerm == k <= Len(F) /\ i <= Len(F[k]) /\ sum' = OAdd(sum, MulOps(F[k][i].c, F[k][i].ops)) /\ i' = i + 1
           /\ UNCHANGED <<id, k, prod, fs>>
NextFactor == k <= Len(F) /\ i > Len(F[k])
              /\ prod' = (IF k = 1 THEN sum ELSE OMul(prod, sum))
              /\ fs' = Append(fs, OpOut(sum)) /\ sum' = Zero /\ i' = 1 /\ k' = k + 1 /\ UNCHANGED id
Finish == k = Len(F) + 1 /\ k' = k + 1
          /\ CSVWrite("%1$s", <<ToJson([id |-> id, e |-> prod.e, m |-> OpOut(prod), tc |-> TermsCommute(prod), herm |-> IsHermitian(prod)])>>, IOEnv.OUT \o "." \o ToString(id % 128))
          /\ UNCHANGED <<id, i, sum, prod, fs>>
Next == AddTerm \/ NextFactor \/ Finish
Spec == Init /\ [][Next]_vars
Canonical == \A s \in DOMAIN prod.m : prod.m[s] # CZero
\* a product doesn't have more strings than pairs
Bounded == k >= 2 => Cardinality(DOMAIN prod.m) <= FoldLeft(LAMBDA a, x : a * x, 1, [n \in 1..Len(fs) |-> Len(fs[n])])
=============================================================================
