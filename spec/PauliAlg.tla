------------------------------ MODULE PauliAlg ------------------------------
(***************************************************************************)
(* The algebra of Pauli operators on NQ qubits with coefficients in Z[i]/2^e *)
(* (C10-C13, C15).  A Pauli string is a tuple s of NQ letters 0..3 for       *)
(* I, X, Y, Z (s[q+1] acts on qubit q).  An operator is                      *)
(*   [e |-> e, m |-> f]   meaning  2^(-e) * sum_s (f[s][1] + i f[s][2]) * s  *)
(* f without zero entries and e minimal, so equality of operators is "=".    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

CONSTANT NQ

Letters == 0..3
Strings == [1..NQ -> Letters]
IdS == [q \in 1..NQ |-> 0]

\* ---- Gaussian integers -------------------------------------------------
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CNeg(a) == <<-a[1], -a[2]>>
CI(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, 1>> [] k % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
CZero == <<0, 0>>

\* ---- letters: a*b = i^LPhase(a,b) * LProd(a,b) --------------------------
LProd(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE IF a = b THEN 0 ELSE 6 - a - b
LPhase(a, b) == IF a = 0 \/ b = 0 \/ a = b THEN 0 ELSE IF (b - a) % 3 = 1 THEN 1 ELSE 3
SProd(s, t) == [q \in 1..NQ |-> LProd(s[q], t[q])]
SPhase(s, t) == FoldLeft(LAMBDA acc, q : acc + LPhase(s[q], t[q]), 0, [q \in 1..NQ |-> q]) % 4
SCommute(s, t) == Cardinality({q \in 1..NQ : s[q] # 0 /\ t[q] # 0 /\ s[q] # t[q]}) % 2 = 0

\* ---- operators ---------------------------------------------------------
Pow2(k) == 2^k
RECURSIVE NormE(_, _)
NormE(e, f) == IF DOMAIN f = {} THEN [e |-> 0, m |-> f]
               ELSE IF e > 0 /\ \A s \in DOMAIN f : f[s][1] % 2 = 0 /\ f[s][2] % 2 = 0
               THEN NormE(e - 1, TLCEval([s \in DOMAIN f |-> <<f[s][1] \div 2, f[s][2] \div 2>>]))
               ELSE [e |-> e, m |-> f]
Mk(e, f) == LET g == TLCEval(f) IN NormE(e, TLCEval([s \in {t \in DOMAIN g : g[t] # CZero} |-> g[s]]))
Zero == [e |-> 0, m |-> [s \in {} |-> CZero]]
Scalar(re, im, e) == Mk(e, [s \in {IdS} |-> <<re, im>>])
One == Scalar(1, 0, 0)
Letter(l, q) == Mk(0, [s \in {[IdS EXCEPT ![q + 1] = l]} |-> <<1, 0>>])
Coef(a, s) == IF s \in DOMAIN a.m THEN a.m[s] ELSE CZero
Max2(a, b) == IF a > b THEN a ELSE b
Up(c, k) == <<c[1] * Pow2(k), c[2] * Pow2(k)>>
OAdd(a, b) == LET e == Max2(a.e, b.e) IN
  Mk(e, [s \in DOMAIN a.m \cup DOMAIN b.m |-> CAdd(Up(Coef(a, s), e - a.e), Up(Coef(b, s), e - b.e))])
ONeg(a) == [e |-> a.e, m |-> TLCEval([s \in DOMAIN a.m |-> CNeg(a.m[s])])]
OSub(a, b) == OAdd(a, ONeg(b))
OMul(a, b) ==
  LET pairs == (DOMAIN a.m) \X (DOMAIN b.m)
      dom == {SProd(p[1], p[2]) : p \in pairs}
      term(p) == CMul(CMul(a.m[p[1]], b.m[p[2]]), CI(SPhase(p[1], p[2])))
  IN  Mk(a.e + b.e, [s \in dom |-> FoldLeft(LAMBDA acc, p : CAdd(acc, term(p)), CZero,
                                             SetToSeq({p \in pairs : SProd(p[1], p[2]) = s}))])
RECURSIVE OPow(_, _)
OPow(a, n) == IF n = 0 THEN One ELSE OMul(OPow(a, n - 1), a)
Comm(a, b) == OSub(OMul(a, b), OMul(b, a))
\* adjoint and reality
OConj(a) == [e |-> a.e, m |-> [s \in DOMAIN a.m |-> <<a.m[s][1], -a.m[s][2]>>]]
IsHermitian(a) == \A s \in DOMAIN a.m : a.m[s][2] = 0
TermsCommute(a) == \A s, t \in DOMAIN a.m : SCommute(s, t)

\* ---- matrices: entry <<row, col>> of an operator, over Z[i] -------------
SBit(x, q) == (x \div Pow2(q)) % 2
LEntry(l, r, c) == CASE l = 0 -> IF r = c THEN <<1, 0>> ELSE CZero
                     [] l = 1 -> IF r # c THEN <<1, 0>> ELSE CZero
                     [] l = 2 -> IF r = c THEN CZero ELSE IF r = 0 THEN <<0, -1>> ELSE <<0, 1>>
                     [] l = 3 -> IF r # c THEN CZero ELSE IF r = 0 THEN <<1, 0>> ELSE <<-1, 0>>
\* the column in which row x of string s is non-zero, and that entry
SCol(s, x) == LET F(acc, q) == acc + (IF s[q] \in {1, 2} THEN 1 - SBit(x, q - 1) ELSE SBit(x, q - 1)) * Pow2(q - 1)
              IN FoldLeft(F, 0, [q \in 1..NQ |-> q])
SEntry(s, x) == LET y == SCol(s, x) F(acc, q) == CMul(acc, LEntry(s[q], SBit(x, q - 1), SBit(y, q - 1)))
                IN FoldLeft(F, <<1, 0>>, [q \in 1..NQ |-> q])
\* row x of an operator: function column -> coefficient (over 2^e)
Row(a, x) == LET cols == {SCol(s, x) : s \in DOMAIN a.m} IN
  TLCEval([y \in cols |-> FoldLeft(LAMBDA acc, s : CAdd(acc, CMul(a.m[s], SEntry(s, x))), CZero,
                                    SetToSeq({s \in DOMAIN a.m : SCol(s, x) = y}))])

OpOut(a) == LET ss == SetToSeq(DOMAIN a.m) IN [i \in 1..Len(ss) |-> <<[q \in 1..NQ |-> ss[i][q]], a.m[ss[i]][1], a.m[ss[i]][2]>>]
=============================================================================
