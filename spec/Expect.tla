------------------------------- MODULE Expect -------------------------------
(***************************************************************************)
(* C13.  Expectation values and marginal distributions of the states of      *)
(* symbolic circuits, as exact polynomials.  A case of IN is                 *)
(*   [n, ops, h |-> sequence of Pauli strings (sequences of <<letter, q>>),  *)
(*    meas |-> sequence of sequences of qubits]                              *)
(* Besides writing <P> and the marginals, the machine checks the facts the   *)
(* samplers rely on, for every value of the angles.                          *)
(***************************************************************************)
EXTENDS Observe, Json, IOUtils, CSV
Cases == JsonDeserialize(IOEnv.IN)
VARIABLES id, pc, st, ex, mg
vars == <<id, pc, st, ex, mg>>
Case == Cases[id]
Init == id \in 1..Len(Cases) /\ pc = 1 /\ st = Basis(0) /\ ex = <<>> /\ mg = <<>>
Step == pc <= Len(Case.ops) /\ st' = TLCEval(ApplyOp(st, Case.ops[pc], Case.n)) /\ pc' = pc + 1 /\ UNCHANGED <<id, ex, mg>>
Done == pc > Len(Case.ops)

DoExp == Done /\ Len(ex) < Len(Case.h) /\ ex' = Append(ex, Expectation(st, Case.h[Len(ex) + 1])) /\ UNCHANGED <<id, pc, st, mg>>
DoMarg == Done /\ Len(ex) = Len(Case.h) /\ Len(mg) < Len(Case.meas) /\ mg' = Append(mg, Marginal(st, Case.meas[Len(mg) + 1])) /\ UNCHANGED <<id, pc, st, ex>>
Finish == Done /\ Len(mg) = Len(Case.meas) /\ pc < 1000 /\ pc' = 1000 /\ UNCHANGED <<id, st, ex, mg>>
          /\ CSVWrite("%1$s", <<ToJson([id |-> id, s |-> st.s, ex |-> [i \in 1..Len(ex) |-> PolyOut(ex[i])], mg |-> [i \in 1..Len(mg) |-> MargOut(mg[i])]])>>, IOEnv.OUT \o "." \o ToString(id % 128))
Next == Step \/ (pc < 1000 /\ (DoExp \/ DoMarg \/ Finish))
Spec == Init /\ [][Next]_vars

NEx == Len(ex)
\* expectation values are real
RealOK == NEx > 0 => PConj(ex[NEx]) = ex[NEx]
\* marginals are probabilities that add up to one
MargOK == Len(mg) > 0 => LET f == mg[Len(mg)] ks == SetToSeq(DOMAIN f) IN FoldLeft(LAMBDA acc, k : PAdd(acc, f[k]), PZero, ks) = PInt(Pow2(st.s))
\* the sampling scheme: h for X, rx(pi/2) for Y, then the parity of the string's bits
Rotate(v, w) == FoldLeft(LAMBDA acc, e : IF e[1] = "X" THEN ApplyOne(acc, MH, e[2])
                                         ELSE IF e[1] = "Y" THEN ApplyOne(acc, MRX(<<0, 2>>), e[2]) ELSE acc, v, w)
Parity(b) == FoldLeft(LAMBDA acc, x : acc + x, 0, b) % 2
SamplingOK == (NEx > 0 /\ Len(mg) = 0) =>
  LET w == Case.h[NEx]
      r == Rotate(st, w)
      f == Marginal(r, [i \in 1..Len(w) |-> w[i][2]])
      e == FoldLeft(LAMBDA acc, k : PAdd(acc, PScale(f[k], IF Parity(k) = 1 THEN -1 ELSE 1)), PZero, SetToSeq(DOMAIN f))
      m == r.s + st.s
  IN  PScale(e, Pow2(st.s)) = PScale(ex[NEx], Pow2(r.s))
=============================================================================
