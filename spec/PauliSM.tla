------------------------------ MODULE PauliSM ------------------------------
(***************************************************************************)
(* Expressions as immutable values (C10): a machine over slots that hold     *)
(* numbers, Pauli operators, terms and expressions.  Each step computes one  *)
(* slot from others; nothing else may change.                                *)
(***************************************************************************)
EXTENDS PauliAlg, Json, IOUtils, CSV
CONSTANTS Depth, NSlots
VARIABLES val, hist, done, tick
vars == <<val, hist, done, tick>>
Slots == 1..NSlots
Pick(S) == RandomElement(S)
Num(re, im, e) == [k |-> "num", o |-> Scalar(re, im, e)]
Kinds == {"num", "pauli", "term", "expr"}
Reals == {-4, -3, -2, -1, 0, 1, 2, 3, 4}
Divs == {<<1, 0, 0>>, <<2, 0, 0>>, <<-2, 0, 0>>, <<4, 0, 0>>, <<1, 0, 1>>, <<0, 1, 0>>, <<0, -2, 0>>, <<-1, 0, 2>>, <<0, 1, 1>>}

Small(o) == o.e <= 8 /\ Cardinality(DOMAIN o.m) <= 20 /\ \A s \in DOMAIN o.m : o.m[s][1] \in -60000..60000 /\ o.m[s][2] \in -60000..60000
\* operands whose product can't overflow
Tiny(o) == o.e <= 4 /\ Cardinality(DOMAIN o.m) <= 8 /\ \A s \in DOMAIN o.m : o.m[s][1] \in -4000..4000 /\ o.m[s][2] \in -4000..4000

Init == /\ val = [s \in Slots |-> IF s <= 3 THEN [k |-> "pauli", o |-> Letter(s, (s - 1) % NQ)] ELSE [k |-> "num", o |-> Scalar(2, 0, 0)]]
        /\ hist = <<>> /\ done = FALSE /\ tick = 0
Out(v) == [k |-> v.k, e |-> v.o.e, m |-> OpOut(v.o)]
Set(z, v, ev) == /\ Small(v.o)
                 /\ val' = [val EXCEPT ![z] = v]
                 /\ hist' = Append(hist, ev @@ [z |-> z, v |-> Out(v)])
                 /\ UNCHANGED done
Rank(k) == CASE k = "num" -> 0 [] k = "pauli" -> 1 [] k = "term" -> 2 [] k = "expr" -> 3
AddKind == "expr"
MulKind(a, b) == IF a = "expr" \/ b = "expr" THEN "expr" ELSE "term"

Leaf == \E z \in {Pick(Slots)} : \E l \in {Pick(0..3)} : \E q \in {Pick(0..(NQ - 1))} :
  Set(z, [k |-> "pauli", o |-> IF l = 0 THEN One ELSE Letter(l, q)], [a |-> "leaf", l |-> l, q |-> q])
Number == \E z \in {Pick(Slots)} : \E re \in {Pick(Reals)} : \E im \in {Pick({0, 0, 0, 1, -1, 2})} : \E e \in {Pick(0..2)} :
  Set(z, Num(re, im, e), [a |-> "num", n |-> <<re, im, e>>])
Chars == \E z \in {Pick(Slots)} : \E s \in {Pick(Strings)} : \E len \in {Pick(1..NQ)} : \E rev \in {Pick(BOOLEAN)} :
  LET t == [q \in 1..NQ |-> IF q <= len THEN s[q] ELSE 0] IN
  Set(z, [k |-> "term", o |-> Mk(0, [u \in {t} |-> <<1, 0>>])],
      [a |-> "chars", s |-> [i \in 1..len |-> IF rev THEN t[len + 1 - i] ELSE t[i]], rev |-> rev])
Bin == \E x \in {Pick(Slots)} : \E y \in {Pick(Slots)} : \E z \in {Pick(Slots)} : \E f \in {Pick({"add", "sub", "mul", "mul"})} :
  /\ ~(val[x].k = "num" /\ val[y].k = "num")
  /\ Tiny(val[x].o) /\ Tiny(val[y].o)
  /\ Set(z, [k |-> IF f = "mul" THEN MulKind(val[x].k, val[y].k) ELSE AddKind,
             o |-> CASE f = "add" -> OAdd(val[x].o, val[y].o) [] f = "sub" -> OSub(val[x].o, val[y].o) [] OTHER -> OMul(val[x].o, val[y].o)],
         [a |-> f, x |-> x, y |-> y])
Div == \E x \in {Pick(Slots)} : \E z \in {Pick(Slots)} : \E d \in {Pick(Divs)} :
  /\ val[x].k # "num" /\ Tiny(val[x].o)
  /\ LET n2 == d[1] * d[1] + d[2] * d[2]      \* a power of two
         k == CHOOSE j \in 0..4 : Pow2(j) = n2
         \* 1/(w/2^e) = conj(w) * 2^e / |w|^2
         inv == Mk(k, [s \in {IdS} |-> <<d[1] * Pow2(d[3]), -d[2] * Pow2(d[3])>>])
     IN Set(z, [k |-> IF val[x].k = "expr" THEN "expr" ELSE "term", o |-> OMul(val[x].o, inv)], [a |-> "div", x |-> x, n |-> d])
Neg == \E x \in {Pick(Slots)} : \E z \in {Pick(Slots)} : val[x].k # "num" /\
  Set(z, [k |-> IF val[x].k = "expr" THEN "expr" ELSE "term", o |-> ONeg(val[x].o)], [a |-> "neg", x |-> x])
PowStep == \E x \in {Pick(Slots)} : \E z \in {Pick(Slots)} : \E n \in {Pick(0..3)} :
  /\ val[x].k \in {"term", "expr"} /\ Cardinality(DOMAIN val[x].o.m) <= 4
  /\ val[x].o.e <= 2 /\ \A s \in DOMAIN val[x].o.m : val[x].o.m[s][1] \in -9..9 /\ val[x].o.m[s][2] \in -9..9
  /\ Set(z, [k |-> val[x].k, o |-> OPow(val[x].o, n)], [a |-> "pow", x |-> x, n |-> n])
Simp == \E x \in {Pick(Slots)} : \E z \in {Pick(Slots)} : val[x].k \in {"term", "expr"} /\
  Set(z, val[x], [a |-> "simplify", x |-> x])
Conv == \E x \in {Pick(Slots)} : \E z \in {Pick(Slots)} : \E to \in {Pick({"term", "expr"})} :
  /\ val[x].k # "num" /\ Rank(to) >= Rank(val[x].k)
  /\ Set(z, [k |-> to, o |-> val[x].o], [a |-> "conv", x |-> x, to |-> to])
CommStep == \E x \in {Pick(Slots)} : \E y \in {Pick(Slots)} : \E z \in {Pick(Slots)} :
  /\ val[x].k # "num" /\ val[y].k # "num" /\ Tiny(val[x].o) /\ Tiny(val[y].o)
  /\ Set(z, [k |-> "expr", o |-> Comm(val[x].o, val[y].o)], [a |-> "commutator", x |-> x, y |-> y])
Qubo == \E z \in {Pick(Slots)} : \E q \in {Pick(0..(NQ - 1))} :
  Set(z, [k |-> "expr", o |-> OSub(Scalar(1, 0, 1), Mk(1, [s \in {[IdS EXCEPT ![q + 1] = 3]} |-> <<1, 0>>]))], [a |-> "qubo_bit", q |-> q])
Copy == \E x \in {Pick(Slots)} : \E z \in {Pick(Slots)} : Set(z, val[x], [a |-> "copy", x |-> x])
\* observers: only recorded
Obs(v) == hist' = Append(hist, v) /\ UNCHANGED <<val, done>>
Equal == \E x \in {Pick(Slots)} : \E y \in {Pick(Slots)} : val[x].k # "num" /\ val[y].k # "num" /\
  Obs([a |-> "eq", x |-> x, y |-> y, r |-> val[x].o = val[y].o])
Commutes == \E x \in {Pick(Slots)} : \E y \in {Pick(Slots)} : val[x].k # "num" /\ val[y].k # "num" /\ Tiny(val[x].o) /\ Tiny(val[y].o) /\
  Obs([a |-> "commutes", x |-> x, y |-> y, r |-> Comm(val[x].o, val[y].o) = Zero])
TermsComm == \E x \in {Pick(Slots)} : val[x].k \in {"term", "expr"} /\ Obs([a |-> "termscommute", x |-> x, r |-> TermsCommute(val[x].o)])
Finish == /\ (Len(hist) >= Depth \/ tick >= 4 * Depth) /\ ~done /\ done' = TRUE /\ UNCHANGED <<val, hist, tick>>
          /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
Step == \E k \in {Pick(1..26)} :
  \/ k \in 1..2 /\ Leaf
  \/ k \in 3..4 /\ Number
  \/ k = 5 /\ Chars
  \/ k \in 6..14 /\ Bin
  \/ k = 15 /\ Div
  \/ k = 16 /\ Neg
  \/ k \in 17..18 /\ PowStep
  \/ k = 19 /\ Simp
  \/ k = 20 /\ Conv
  \/ k = 21 /\ CommStep
  \/ k = 22 /\ Qubo
  \/ k = 23 /\ Equal
  \/ k = 24 /\ Commutes
  \/ k = 25 /\ TermsComm
  \/ k = 26 /\ Copy
  \/ k > 5 /\ UNCHANGED <<val, hist, done>>           \* the chosen step may be disabled
Next == (Len(hist) < Depth /\ tick < 4 * Depth /\ Step /\ tick' = tick + 1) \/ Finish
Spec == Init /\ [][Next]_vars
Canonical == \A s \in Slots : LET o == val[s].o IN (\A u \in DOMAIN o.m : o.m[u] # CZero) /\ Mk(o.e, o.m) = o
NumberKinds == \A s \in Slots : val[s].k = "num" => DOMAIN val[s].o.m \subseteq {IdS}
OneSlot == [][Cardinality({s \in Slots : val'[s] # val[s]}) <= 1]_vars
=============================================================================
