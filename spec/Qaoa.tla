-------------------------------- MODULE Qaoa --------------------------------
(***************************************************************************)
(* C14.  The QAOA circuit as a transition system.  A case of IN is           *)
(*   [n     |-> qubits of the final circuit,                                 *)
(*    init  |-> operations of the initial circuit,                           *)
(*    h     |-> Hamiltonian: sequence of [m |-> 4 * coefficient, w |-> string],*)
(*    std   |-> TRUE for the default mixer (rx on every qubit),              *)
(*    mix   |-> mixer: sequence of [m |-> 4 * coefficient, w |-> string],    *)
(*    beta, gamma |-> angles  pi * beta_k  and  2 pi * gamma_k,              *)
(*    meas  |-> sequence of measured qubit sequences]                        *)
(* The terms of the cost layer commute, so they may be evolved in any order: *)
(* the machine leaves the order open and every order has to end in the same  *)
(* state (the driver compares the terminal states of a case).                 *)
(* The mixer's terms are evolved in the order given.                         *)
(***************************************************************************)
EXTENDS Observe, Json, IOUtils, CSV

Cases == JsonDeserialize(IOEnv.IN)
VARIABLES id,    \* the case
          k,     \* step, 0 while the initial circuit runs
          ph,    \* "init" | "cost" | "mix" | "observe" | "end" | "rejected"
          done,  \* what of the current layer has been applied
          st, ex, mg
vars == <<id, k, ph, done, st, ex, mg>>
Case == Cases[id]
Steps == Len(Case.beta)
Overlap(v, w) == Cardinality({i \in 1..Len(v) : \E j \in 1..Len(w) : w[j][2] = v[i][2] /\ w[j][1] # v[i][1]})
Commuting(h) == \A i, j \in 1..Len(h) : Overlap(h[i].w, h[j].w) % 2 = 0

Init == /\ id \in 1..Len(Cases) /\ k = 0 /\ done = {} /\ st = Basis(0) /\ ex = <<>> /\ mg = <<>>
        /\ ph = IF Commuting(Cases[id].h) THEN "init" ELSE "rejected"

\* i c t P as a rotation: exp(i c t P) = exp(-i (-2 c t)/2 P)
ScaleAngle(a, m) == <<(-m * a[1]) \div 2, (-m * a[2]) \div 2>>
ExactAngle(a, m) == (m * a[1]) % 2 = 0 /\ (m * a[2]) % 2 = 0
Evolve(v, term, t) == IF Len(term.w) = 0 THEN v ELSE TLCEval(ApplyPExp(v, ScaleAngle(t, term.m), term.w))
Range1(s) == 1..Len(s)

StartLayer(j) == IF j > Steps THEN k' = j /\ ph' = "observe" /\ done' = {} ELSE k' = j /\ ph' = "cost" /\ done' = {}
InitGate ==
  /\ ph = "init"
  /\ LET i == Cardinality(done) + 1 IN
     IF i <= Len(Case.init) THEN st' = TLCEval(ApplyOp(st, Case.init[i], Case.n)) /\ done' = done \cup {i} /\ UNCHANGED <<k, ph>>
     ELSE st' = st /\ StartLayer(1)
  /\ UNCHANGED <<id, ex, mg>>
Cost(i) ==
  /\ ph = "cost" /\ i \notin done
  /\ st' = Evolve(st, Case.h[i], Case.gamma[k])
  /\ done' = done \cup {i}
  /\ UNCHANGED <<id, k, ph, ex, mg>>
CostDone == ph = "cost" /\ done = Range1(Case.h) /\ ph' = "mix" /\ done' = {} /\ UNCHANGED <<id, k, st, ex, mg>>
\* the default mixer acts on the qubits one at a time, in any order
MixStd(q) ==
  /\ ph = "mix" /\ Case.std /\ q \notin done
  /\ (\A r \in 0..(q - 1) : r \in done)
  /\ st' = TLCEval(ApplyOne(st, MRX(Case.beta[k]), q))
  /\ done' = done \cup {q}
  /\ UNCHANGED <<id, k, ph, ex, mg>>
MixTerm ==
  /\ ph = "mix" /\ ~Case.std /\ Cardinality(done) < Len(Case.mix)
  /\ LET i == Cardinality(done) + 1 IN st' = Evolve(st, Case.mix[i], Case.beta[k]) /\ done' = done \cup {i}
  /\ UNCHANGED <<id, k, ph, ex, mg>>
MixDone ==
  /\ ph = "mix" /\ Cardinality(done) = (IF Case.std THEN Case.n ELSE Len(Case.mix))
  /\ StartLayer(k + 1) /\ UNCHANGED <<id, st, ex, mg>>
DoExp == ph = "observe" /\ Len(ex) < Len(Case.h) /\ ex' = Append(ex, Expectation(st, Case.h[Len(ex) + 1].w)) /\ UNCHANGED <<id, k, ph, done, st, mg>>
DoMarg == /\ ph = "observe" /\ Len(ex) = Len(Case.h) /\ Len(mg) < Len(Case.meas)
          /\ mg' = Append(mg, Marginal(st, Case.meas[Len(mg) + 1])) /\ UNCHANGED <<id, k, ph, done, st, ex>>
StateOut(v) == LET xs == SetToSeq(DOMAIN v.a) IN [i \in 1..Len(xs) |-> <<xs[i], PolyOut(v.a[xs[i]])>>]
Emit(r) == CSVWrite("%1$s", <<ToJson(r)>>, IOEnv.OUT \o "." \o ToString(id % 128))
Finish == /\ ph = "observe" /\ Len(ex) = Len(Case.h) /\ Len(mg) = Len(Case.meas) /\ ph' = "end"
          /\ Emit([id |-> id, ok |-> TRUE, s |-> st.s, a |-> StateOut(st), ex |-> [i \in 1..Len(ex) |-> PolyOut(ex[i])],
                   mg |-> [i \in 1..Len(mg) |-> MargOut(mg[i])]])
          /\ UNCHANGED <<id, k, done, st, ex, mg>>
Reject == /\ ph = "rejected" /\ ph' = "end" /\ Emit([id |-> id, ok |-> FALSE]) /\ UNCHANGED <<id, k, done, st, ex, mg>>
Next == InitGate \/ (\E i \in Range1(Case.h) : Cost(i)) \/ CostDone \/ (\E q \in 0..(Case.n - 1) : MixStd(q)) \/ MixTerm \/ MixDone
        \/ DoExp \/ DoMarg \/ Finish \/ Reject
Spec == Init /\ [][Next]_vars

NormOK == (ph = "observe" /\ k = 0) => HasNorm(st, 1)
AnglesOK == /\ ph = "cost" => \A i \in Range1(Case.h) : ExactAngle(Case.gamma[k], Case.h[i].m)
            /\ (ph = "mix" /\ ~Case.std) => \A i \in Range1(Case.mix) : ExactAngle(Case.beta[k], Case.mix[i].m)
\* the cost layer commutes with the Hamiltonian: it changes no cost expectation value
CostInvariant ==
  [][ (ph = "cost" /\ ph' = "cost" /\ done = {} /\ k = 1) =>
        \A i \in Range1(Case.h) : PScale(Expectation(st', Case.h[i].w), Pow2(st.s)) = PScale(Expectation(st, Case.h[i].w), Pow2(st'.s)) ]_vars
RealOK == Len(ex) > 0 => PConj(ex[Len(ex)]) = ex[Len(ex)]
=============================================================================
