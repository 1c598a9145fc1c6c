------------------------------- MODULE Poly -------------------------------
(***************************************************************************)
(* Exact arithmetic for circuit amplitudes.                                 *)
(*                                                                          *)
(* An amplitude is  P * sqrt(2)^(-s)  where P is a Laurent polynomial with  *)
(* integer coefficients in                                                  *)
(*      z    = exp(i*pi/8)          (z^8 = -1, so powers 0..7 suffice)      *)
(*      t_j  = exp(i*a_j/4)         j = 1..3, a_j free real angles          *)
(* A monomial z^p * t_1^e1 * t_2^e2 * t_3^e3 is one integer key             *)
(*      8*E + p,   E = e1 + 256*e2 + 65536*e3,   |e_j| <= 127               *)
(* and a polynomial is a function from the finite set of keys with non-zero *)
(* coefficient to Int (the zero polynomial is the empty function).          *)
(* An identity between such polynomials holds for EVERY value of the angles.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

PZero == <<>>
POne  == 0 :> 1
PInt(c) == IF c = 0 THEN PZero ELSE 0 :> c

\* A unit monomial is a pair <<E, c>> meaning z^c * t^E (c any integer).
ShiftKey(k, E, c) == LET q == ((k % 8) + c) % 16
                     IN  8 * ((k \div 8) + E) + (q % 8)
ShiftSign(k, E, c) == IF (((k % 8) + c) % 16) < 8 THEN 1 ELSE -1

Strip(f) == LET g == TLCEval(f) IN TLCEval([k \in {d \in DOMAIN g : g[d] # 0} |-> g[k]])

Coef(p, k) == IF k \in DOMAIN p THEN p[k] ELSE 0

\* p * (z^c t^E)
PShift(p, E, c) ==
  LET D == {ShiftKey(k, E, c) : k \in DOMAIN p}
  IN  TLCEval([kk \in D |-> LET b == ShiftKey(kk, -E, -c)
                            IN  ShiftSign(b, E, c) * p[b]])

PAdd(a, b) ==
  IF a = PZero THEN b ELSE IF b = PZero THEN a ELSE
  Strip([k \in (DOMAIN a) \cup (DOMAIN b) |-> Coef(a, k) + Coef(b, k)])

PScale(a, c) == IF c = 0 THEN PZero ELSE [k \in DOMAIN a |-> c * a[k]]
PNeg(a) == PScale(a, -1)
PSub(a, b) == PAdd(a, PNeg(b))

\* sum of  l[i].p * z^(l[i].c) t^(l[i].E)  over a sequence of <<p, E, c>>
SumShift(l) ==
  IF Len(l) = 1 THEN PShift(l[1][1], l[1][2], l[1][3]) ELSE
  LET sh == TLCEval([i \in 1..Len(l) |-> PShift(l[i][1], l[i][2], l[i][3])])
      D  == UNION {DOMAIN sh[i] : i \in 1..Len(l)}
  IN  Strip([k \in D |-> FoldLeft(LAMBDA acc, q : acc + Coef(q, k), 0, sh)])

PMul(a, b) ==
  IF a = PZero \/ b = PZero THEN PZero ELSE
  LET ks == SetToSeq(DOMAIN b)
      sh == TLCEval([i \in 1..Len(ks) |-> PScale(PShift(a, ks[i] \div 8, ks[i] % 8), b[ks[i]])])
      D  == UNION {DOMAIN sh[i] : i \in 1..Len(ks)}
  IN  Strip([k \in D |-> FoldLeft(LAMBDA acc, q : acc + Coef(q, k), 0, sh)])

\* complex conjugate: z^p t^E -> z^-p t^-E
ConjKey(k)  == LET p == k % 8 IN IF p = 0 THEN -k ELSE 8 * (-(k \div 8)) + (8 - p)
ConjSign(k) == IF (k % 8) = 0 THEN 1 ELSE -1
PConj(a) == LET D == {ConjKey(k) : k \in DOMAIN a}
            IN  TLCEval([kk \in D |-> ConjSign(ConjKey(kk)) * a[ConjKey(kk)]])

PAllEven(a) == \A k \in DOMAIN a : a[k] % 2 = 0
PHalf(a)    == TLCEval([k \in DOMAIN a |-> a[k] \div 2])
\* sqrt(2) = z^2 - z^6
PMulRoot2(a) == PAdd(PShift(a, 0, 2), PShift(a, 0, 14))
PNorm2(a) == PMul(a, PConj(a))
=============================================================================
