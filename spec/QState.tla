------------------------------ MODULE QState ------------------------------
(***************************************************************************)
(* Sparse exact state vectors.  A state is a record                         *)
(*    [s |-> k, a |-> f]                                                    *)
(* whose amplitude of basis index x (qubit i is bit i of x) is              *)
(*    f[x] * sqrt(2)^(-k)   (0 for x outside DOMAIN f).                     *)
(***************************************************************************)
EXTENDS Poly, Bitwise

Pow2(i) == 2^i
Bit(x, b) == (x \div Pow2(b)) % 2
Flip(x, b) == IF Bit(x, b) = 1 THEN x - Pow2(b) ELSE x + Pow2(b)
SwapBits(x, b, c) == IF Bit(x, b) = Bit(x, c) THEN x ELSE Flip(Flip(x, b), c)

Basis(x) == [s |-> 0, a |-> (x :> POne)]
\* sum_j |j>|j> on 2n bits: one state that carries a whole unitary
ChoiInit(n) == [s |-> 0, a |-> TLCEval([x \in {j * (1 + Pow2(n)) : j \in 0..(Pow2(n) - 1)} |-> POne])]

Amp(f, x) == IF x \in DOMAIN f THEN f[x] ELSE PZero

StripState(f) == LET g == TLCEval(f) IN TLCEval([x \in {d \in DOMAIN g : g[d] # PZero} |-> g[x]])

Reduce(st) ==
  IF st.s >= 2 /\ \A x \in DOMAIN st.a : PAllEven(st.a[x])
  THEN [s |-> st.s - 2, a |-> TLCEval([x \in DOMAIN st.a |-> PHalf(st.a[x])])]
  ELSE st

\* fully reduced: canonical representative, so that equality of states is "="
RECURSIVE Canon(_)
Canon(st) ==
  IF st.s >= 2 /\ \A x \in DOMAIN st.a : PAllEven(st.a[x])
  THEN Canon([s |-> st.s - 2, a |-> TLCEval([x \in DOMAIN st.a |-> PHalf(st.a[x])])])
  ELSE LET r == TLCEval([x \in DOMAIN st.a |-> PMulRoot2(st.a[x])])
       IN IF st.s >= 1 /\ \A x \in DOMAIN r : PAllEven(r[x])
          THEN Canon([s |-> st.s - 1, a |-> TLCEval([x \in DOMAIN r |-> PHalf(r[x])])])
          ELSE st

(* A linear operator is given by its rows: Row(y) is a sequence of          *)
(* <<x, monos>> (monos: sequence of <<E, c>>), scaled by sqrt(2)^(-k), and  *)
(* its sparsity pattern is symmetric.                                       *)
ApplyRows(st, Row(_), k) ==
  LET f  == st.a
      D  == UNION {{Row(x)[i][1] : i \in 1..Len(Row(x))} : x \in DOMAIN f}
      New(y) == LET r == SelectSeq(Row(y), LAMBDA e : e[1] \in DOMAIN f)
                    l == FlattenSeq([i \in 1..Len(r) |->
                            [j \in 1..Len(r[i][2]) |-> <<f[r[i][1]], r[i][2][j][1], r[i][2][j][2]>>]])
                IN  IF Len(l) = 0 THEN PZero ELSE SumShift(l)
  IN  Reduce([s |-> st.s + k, a |-> StripState([y \in D |-> New(y)])])

(* 2x2 matrix m = [k, e00, e01, e10, e11]; entries are sequences of monos   *)
RowOne(m, b, y) ==
  IF Bit(y, b) = 0 THEN << <<y, m.e00>>, <<Flip(y, b), m.e01>> >>
                   ELSE << <<Flip(y, b), m.e10>>, <<y, m.e11>> >>
Prune(r) == SelectSeq(r, LAMBDA e : Len(e[2]) > 0)

IsDiag(m) == Len(m.e01) = 0 /\ Len(m.e10) = 0

ApplyOne(st, m, b) ==
  LET R(y) == Prune(RowOne(m, b, y)) IN ApplyRows(st, R, m.k)

\* amplitudes of basis states with control bits not all set keep their value;
\* they are multiplied by sqrt(2)^k to share the scale, which must be even
RootPow(k) == [i \in 1..Pow2(k \div 2) |-> <<0, 0>>]      \* 2^(k/2) as a sum of ones
RootPowOdd(k) == FlattenSeq([i \in 1..Pow2((k - 1) \div 2) |-> << <<0, 2>>, <<0, 14>> >>])
ScaleMonos(k) == IF k % 2 = 0 THEN RootPow(k) ELSE RootPowOdd(k)

AllSet(x, ctrls) == \A i \in 1..Len(ctrls) : Bit(x, ctrls[i]) = 1

ApplyCtrl(st, m, ctrls, b) ==
  LET R(y) == IF AllSet(y, ctrls) THEN Prune(RowOne(m, b, y))
                                  ELSE << <<y, ScaleMonos(m.k)>> >>
  IN ApplyRows(st, R, m.k)

ApplySwap(st, ctrls, b, c) ==
  LET R(y) == IF AllSet(y, ctrls) THEN << <<SwapBits(y, b, c), << <<0, 0>> >> >> >>
                                  ELSE << <<y, << <<0, 0>> >> >> >>
  IN ApplyRows(st, R, 0)

\* ---- norms, projections, equality ------------------------------------
Norm2(st) == LET xs == SetToSeq(DOMAIN st.a)
             IN  FoldLeft(LAMBDA acc, x : PAdd(acc, PNorm2(st.a[x])), PZero, xs)
\* total probability is exactly w (an integer) for every angle
HasNorm(st, w) == Norm2(st) = PInt(w * Pow2(st.s))

Project(st, b, v) ==
  Reduce([s |-> st.s, a |-> TLCEval([x \in {d \in DOMAIN st.a : Bit(d, b) = v} |-> st.a[x]])])
\* reset with hidden outcome v: project and move to |0>
ResetTo0(st, b, v) ==
  LET p == Project(st, b, v)
  IN  IF v = 0 THEN p
      ELSE [s |-> p.s, a |-> TLCEval([x \in {Flip(d, b) : d \in DOMAIN p.a} |-> p.a[Flip(x, b)]])]
IsZero(st) == DOMAIN st.a = {}

SameState(u, v) == Canon(u) = Canon(v)
\* equal up to one global phase, for every angle (both of equal norm):
\* all 2x2 minors with a pivot vanish and the norms agree
SamePhase(u, v) ==
  LET cu == Canon(u) cv == Canon(v) IN
  \/ cu = cv
  \/ /\ DOMAIN cu.a = DOMAIN cv.a
     /\ DOMAIN cu.a # {}
     /\ LET pv == CHOOSE x \in DOMAIN cu.a : \A y \in DOMAIN cu.a : Cardinality(DOMAIN cu.a[x]) <= Cardinality(DOMAIN cu.a[y])
        IN \A x \in DOMAIN cu.a : PMul(cu.a[pv], cv.a[x]) = PMul(cv.a[pv], cu.a[x])
     /\ PScale(Norm2(cu), Pow2(cv.s)) = PScale(Norm2(cv), Pow2(cu.s))
=============================================================================
