----------------------------- MODULE Targets -----------------------------
(***************************************************************************)
(* Meaning of target expressions.  An expression (as received from JSON) is *)
(*   [k |-> "i", v |-> int]                        integer                  *)
(*   [k |-> "s", a, b, c |-> <<>> or <<int>>]      slice a:b:c              *)
(*   [k |-> "t", v |-> sequence of expressions]    tuple                    *)
(*   [k |-> "bad"]                                 not an index at all      *)
(* Resolution happens when a circuit is RUN, against its number n of qubits *)
(* at that time, and follows Python indexing of range(n).                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

NoneOr(s, d) == IF Len(s) = 0 THEN d ELSE s[1]
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

SliceSeq(a, b, c, n) ==
  LET step  == NoneOr(c, 1)
      norm(x) == IF x < 0 THEN x + n ELSE x
  IN  IF step > 0 THEN
        LET lo == Clamp(norm(NoneOr(a, 0)), 0, n)
            hi == Clamp(norm(NoneOr(b, n)), 0, n)
            m  == IF hi > lo THEN (hi - lo + step - 1) \div step ELSE 0
        IN  [i \in 1..m |-> lo + (i - 1) * step]
      ELSE
        LET lo == IF Len(a) = 0 THEN n - 1 ELSE Clamp(norm(a[1]), -1, n - 1)
            hi == IF Len(b) = 0 THEN -1 ELSE Clamp(norm(b[1]), -1, n - 1)
            m  == IF lo > hi THEN (lo - hi - step - 1) \div (-step) ELSE 0
        IN  [i \in 1..m |-> lo + (i - 1) * step]

\* Resolve returns [ok, q]: ok = FALSE when the expression is invalid for n
Err == [ok |-> FALSE, q |-> <<>>]
Good(q) == [ok |-> TRUE, q |-> q]

ResolveSingle(e, n) ==
  IF e.k = "i" THEN
     LET v == IF e.v < 0 THEN e.v + n ELSE e.v
     IN  IF v < 0 \/ v >= n THEN Err ELSE Good(<<v>>)
  ELSE IF e.k = "s" THEN
     IF Len(e.c) = 1 /\ e.c[1] = 0 THEN Err ELSE Good(SliceSeq(e.a, e.b, e.c, n))
  ELSE Err

JoinAll(rs) ==
  IF \A i \in 1..Len(rs) : rs[i].ok
  THEN Good(FlattenSeq([i \in 1..Len(rs) |-> rs[i].q])) ELSE Err

Resolve(e, n) ==
  IF e.k = "t" THEN JoinAll([i \in 1..Len(e.v) |-> ResolveSingle(e.v[i], n)])
  ELSE ResolveSingle(e, n)

\* two-qubit gates: a pair of expressions, zipped
\* [k |-> "rev", v |-> e] are the pairs of e in reverse order (inverses need it:
\* the pairs of one operation may share qubits)
RECURSIVE ResolvePairs(_, _)
ResolvePairs(e, n) ==
  IF e.k = "rev" THEN LET r == ResolvePairs(e.v, n) IN [r EXCEPT !.q = Reverse(r.q)] ELSE
  IF e.k # "t" \/ Len(e.v) # 2 THEN Err ELSE
  LET c == Resolve(e.v[1], n)
      t == Resolve(e.v[2], n)
  IN  IF ~c.ok \/ ~t.ok THEN Err
      ELSE IF Len(c.q) # Len(t.q) THEN Err
      ELSE IF \E i \in 1..Len(c.q) : c.q[i] = t.q[i] THEN Err
      ELSE Good([i \in 1..Len(c.q) |-> <<c.q[i], t.q[i]>>])

\* three-qubit gates: three plain integers
ResolveTriple(e, n) ==
  IF e.k # "t" \/ Len(e.v) # 3 THEN Err ELSE
  IF \E i \in 1..3 : e.v[i].k # "i" THEN Err ELSE
  LET r == JoinAll([i \in 1..3 |-> ResolveSingle(e.v[i], n)])
  IN  IF ~r.ok THEN Err
      ELSE IF Cardinality({r.q[i] : i \in 1..3}) # 3 THEN Err
      ELSE Good(<<r.q>>)

\* Which qubits a non-negative index / slice bound names: the circuit grows to it
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE MaxNamed(_)
MaxNamed(e) ==
  IF e.k = "i" THEN e.v
  ELSE IF e.k = "s" THEN SetMax({-1, NoneOr(e.a, -1), NoneOr(e.b, 0) - 1})
  ELSE IF e.k = "t" THEN SetMax({-1} \cup {MaxNamed(e.v[i]) : i \in 1..Len(e.v)})
  ELSE -1
Grow(n, e) == SetMax({n, MaxNamed(e) + 1})
=============================================================================
