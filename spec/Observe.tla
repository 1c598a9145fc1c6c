------------------------------ MODULE Observe ------------------------------
(***************************************************************************)
(* What can be observed of a state: expectation values of Pauli strings and  *)
(* marginal distributions, as exact polynomials in the angles (C13, C14).    *)
(***************************************************************************)
EXTENDS Gates

\* 2^s <st|P|st>
Expectation(v, w) ==
  LET xs == SetToSeq({x \in DOMAIN v.a : PFlip(w, x) \in DOMAIN v.a})
  IN  FoldLeft(LAMBDA acc, x : PAdd(acc, PShift(PMul(PConj(v.a[x]), v.a[PFlip(w, x)]), 0, PPh(w, x) % 16)), PZero, xs)
Bits(x, m) == [i \in 1..Len(m) |-> Bit(x, m[i])]
\* 2^s times the probability of each value of the measured bits
Marginal(v, m) == LET keys == {Bits(x, m) : x \in DOMAIN v.a} IN
  TLCEval([k \in keys |-> FoldLeft(LAMBDA acc, x : PAdd(acc, PNorm2(v.a[x])), PZero, SetToSeq({x \in DOMAIN v.a : Bits(x, m) = k}))])

PolyOut(p) == LET ks == SetToSeq(DOMAIN p) IN [i \in 1..Len(ks) |-> <<ks[i], p[ks[i]]>>]
MargOut(f) == LET ks == SetToSeq(DOMAIN f) IN [i \in 1..Len(ks) |-> <<ks[i], PolyOut(f[ks[i]])>>]
=============================================================================
