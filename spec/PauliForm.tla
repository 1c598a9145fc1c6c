----------------------------- MODULE PauliForm -----------------------------
(***************************************************************************)
(* C27.  What a printed Pauli expression denotes.  A case of IN is the value *)
(* that was printed, terms : <<[ops : <<<<letter, qubit>>, ...>>, re, im]>>  *)
(* (letters 1..3 for X, Y, Z; re and im are signed numbers of entries of a    *)
(* table of magnitudes, 0 for zero, 1 for one), and the text as tokens        *)
(*   [k |-> "name" | "num" | "op", s, i, f, c]                               *)
(* (i: value of an integer token, f: table entry of a number, c: imaginary).  *)
(* The reader follows the grammar of Python expressions restricted to sums   *)
(* of products.  Value and text have to denote the same operator: the same    *)
(* bag of products in normal form (one letter per qubit, phases moved into   *)
(* the coefficients).                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils, CSV
Cases == JsonDeserialize(IOEnv.IN)
VARIABLES id, pos, terms, verdict
vars == <<id, pos, terms, verdict>>
T == Cases[id].toks
End(p) == p > Len(T)
Is(p, c) == ~End(p) /\ T[p].k # "num" /\ T[p].s = c
Num(p) == ~End(p) /\ T[p].k = "num"
No == [ok |-> FALSE, p |-> 0, v |-> <<>>]
Yes(p, v) == [ok |-> TRUE, p |-> p, v |-> v]

\* a coefficient <<re, im>>
One(p) == IF Num(p) THEN Yes(p + 1, IF T[p].c THEN <<0, T[p].f>> ELSE <<T[p].f, 0>>)
          ELSE IF Is(p, "True") THEN Yes(p + 1, <<1, 0>>) ELSE IF Is(p, "False") THEN Yes(p + 1, <<0, 0>>) ELSE No
Signed(p) == LET a == One(IF Is(p, "-") \/ Is(p, "+") THEN p + 1 ELSE p) IN
  IF a.ok /\ Is(p, "-") THEN Yes(a.p, <<0 - a.v[1], 0 - a.v[2]>>) ELSE a
Coef(p) == IF Is(p, "(") THEN
             LET a == Signed(p + 1)
                 b == IF a.ok /\ (Is(a.p, "+") \/ Is(a.p, "-")) THEN Signed(a.p) ELSE No
             IN  IF a.ok /\ Is(a.p, ")") THEN Yes(a.p + 1, a.v)
                 ELSE IF b.ok /\ Is(b.p, ")") /\ a.v[2] = 0 /\ b.v[1] = 0 THEN Yes(b.p + 1, <<a.v[1], b.v[2]>>) ELSE No
           ELSE One(p)
Letter == [x \in {"X", "Y", "Z"} |-> CASE x = "X" -> 1 [] x = "Y" -> 2 [] OTHER -> 3]
\* operators from p on, separated by *
RECURSIVE Factors(_, _)
Factors(p, acc) ==
  LET more(q, a) == IF Is(q, "*") THEN Factors(q + 1, a) ELSE Yes(q, a) IN
  IF Is(p, "I") THEN more(p + 1, acc)
  ELSE IF ~End(p) /\ T[p].k = "name" /\ T[p].s \in DOMAIN Letter /\ Is(p + 1, "[") /\ Num(p + 2) /\ T[p + 2].i # <<>> /\ Is(p + 3, "]")
  THEN more(p + 4, Append(acc, <<Letter[T[p].s], T[p + 2].i[1]>>)) ELSE No
Product(p) ==
  LET c == Coef(p) IN
  IF c.ok THEN (IF Is(c.p, "*") THEN LET f == Factors(c.p + 1, <<>>) IN IF f.ok THEN Yes(f.p, [ops |-> f.v, re |-> c.v[1], im |-> c.v[2]]) ELSE No
                ELSE Yes(c.p, [ops |-> <<>>, re |-> c.v[1], im |-> c.v[2]]))
  ELSE LET f == Factors(p, <<>>) IN IF f.ok THEN Yes(f.p, [ops |-> f.v, re |-> 1, im |-> 0]) ELSE No

\* ---- normal form of a product -------------------------------------------
LProd(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE IF a = b THEN 0 ELSE 6 - a - b
LPhase(a, b) == IF a = 0 \/ b = 0 \/ a = b THEN 0 ELSE IF (b - a) % 3 = 1 THEN 1 ELSE 3
OnQubit(ops, q) == FoldLeft(LAMBDA acc, o : IF o[2] # q THEN acc ELSE <<acc[1] + LPhase(acc[2], o[1]), LProd(acc[2], o[1])>>, <<0, 0>>, ops)
Qubits(ops) == {ops[i][2] : i \in 1..Len(ops)}
Turn(k, re, im) == CASE k % 4 = 0 -> <<re, im>> [] k % 4 = 1 -> <<0 - im, re>> [] k % 4 = 2 -> <<0 - re, 0 - im>> [] OTHER -> <<im, 0 - re>>
Normal(t) ==
  LET qs == Qubits(t.ops)
      at == TLCEval([q \in qs |-> OnQubit(t.ops, q)])
      k == FoldSet(LAMBDA q, acc : acc + at[q][1], 0, qs)
  IN  [s |-> {<<q, at[q][2]>> : q \in {r \in qs : at[r][2] # 0}}, c |-> Turn(k, t.re, t.im)]
Bag(ts) == LET ns == TLCEval([i \in 1..Len(ts) |-> Normal(ts[i])])
               live == {i \in 1..Len(ts) : ns[i].c # <<0, 0>>}
           IN  [x \in {ns[i] : i \in live} |-> Cardinality({i \in live : ns[i] = x})]

Bad(why) == verdict' = why /\ UNCHANGED <<id, pos, terms>>
Init == id \in 1..Len(Cases) /\ pos = 1 /\ terms = <<>> /\ verdict = ""
ReadTerm ==
  /\ verdict = "" /\ ~End(pos)
  /\ LET neg == Is(pos, "-")
         join == neg \/ Is(pos, "+")
         neg2 == join /\ terms # <<>> /\ Is(pos + 1, "-")
         a == Product(pos + (IF join THEN 1 ELSE 0) + (IF neg2 THEN 1 ELSE 0))
     IN  IF a.ok /\ (join \/ terms = <<>>)
         THEN /\ terms' = Append(terms, IF neg # neg2 THEN [a.v EXCEPT !.re = 0 - @, !.im = 0 - @] ELSE a.v)
              /\ pos' = a.p /\ UNCHANGED <<id, verdict>>
         ELSE Bad("not an expression")
Finish ==
  /\ verdict = "" /\ End(pos)
  /\ verdict' = IF terms = <<>> THEN "nothing" ELSE IF Bag(terms) = Bag(Cases[id].terms) THEN "same" ELSE "another value"
  /\ UNCHANGED <<id, pos, terms>>
Verdict == /\ verdict \notin {"", "told"}
           /\ CSVWrite("%1$s", <<ToJson([id |-> id, v |-> verdict, pos |-> pos])>>, IOEnv.OUT \o "." \o ToString(id % 64))
           /\ verdict' = "told" /\ UNCHANGED <<id, pos, terms>>
Next == ReadTerm \/ Finish \/ Verdict
Spec == Init /\ [][Next]_vars
Forward == [][pos' >= pos]_vars
Inside == pos <= Len(T) + 1
=============================================================================
