----------------------------- MODULE PrintForm -----------------------------
(***************************************************************************)
(* C26.  What a printed circuit denotes.  A case of IN is the circuit that   *)
(* was printed, [n, head, ops : <<[g, p, t], ...>>] (p: numbers of parameters in a  *)
(* table of values; t: target expression), and the text as tokens            *)
(*   [k |-> "name" | "num" | "op", s, i, f]                                   *)
(* (i: value of an integer token, f: which parameter value a number is, 0 if  *)
(* none; -f is the negative of value f).  The reader consumes a header        *)
(* Circuit(n) or Ops(n) (head) and then statements .gate(params)[targets]; it follows the      *)
(* grammar of Python expressions, in which a slice a:b:c can only stand        *)
(* directly between the brackets and is slice(a, b, c) elsewhere.            *)
(* At the end the gates read and printed have to act on the same qubits for   *)
(* every size of the register from n on.                                     *)
(***************************************************************************)
EXTENDS Targets, TLC, Json, IOUtils, CSV
Cases == JsonDeserialize(IOEnv.IN)
VARIABLES id, pos, n, ops, verdict
vars == <<id, pos, n, ops, verdict>>
T == Cases[id].toks
End(p) == p > Len(T)
Is(p, c) == ~End(p) /\ T[p].k # "num" /\ T[p].s = c
Num(p) == ~End(p) /\ T[p].k = "num"

\* a reading is [ok, p (next position), v (value)]
No == [ok |-> FALSE, p |-> 0, v |-> <<>>]
Yes(p, v) == [ok |-> TRUE, p |-> p, v |-> v]

ReadInt(p) == IF Num(p) /\ T[p].i # <<>> THEN Yes(p + 1, T[p].i[1])
          ELSE IF Is(p, "-") /\ Num(p + 1) /\ T[p + 1].i # <<>> THEN Yes(p + 2, 0 - T[p + 1].i[1]) ELSE No
Param(p) == IF Num(p) THEN Yes(p + 1, T[p].f)
            ELSE IF Is(p, "-") /\ Num(p + 1) THEN Yes(p + 2, 0 - T[p + 1].f) ELSE No
\* an optional integer, None written as the given word (or as nothing at all)
OptInt(p, none) == LET a == ReadInt(p) IN
  IF a.ok THEN Yes(a.p, <<a.v>>) ELSE IF none = "" THEN Yes(p, <<>>) ELSE IF Is(p, none) THEN Yes(p + 1, <<>>) ELSE No
SliceT(a, b, c) == [k |-> "s", a |-> a, b |-> b, c |-> c]

\* an element between the brackets: integer, a:b, a:b:c
RECURSIVE Item(_), Items(_, _), Tuple(_, _), Elem(_)
Bare(p) ==
  LET a == OptInt(p, "") IN
  IF Is(a.p, ":") THEN
    LET b == OptInt(a.p + 1, "") IN
    IF Is(b.p, ":") THEN LET c == OptInt(b.p + 1, "") IN Yes(c.p, SliceT(a.v, b.v, c.v))
    ELSE Yes(b.p, SliceT(a.v, b.v, <<>>))
  ELSE IF a.v # <<>> THEN Yes(a.p, [k |-> "i", v |-> a.v[1]]) ELSE No
\* slice(b), slice(a, b), slice(a, b, c)
Called(p) ==
  LET a == OptInt(p + 2, "None") IN
  IF ~a.ok THEN No ELSE
  IF Is(a.p, ")") THEN Yes(a.p + 1, SliceT(<<>>, a.v, <<>>)) ELSE
  LET b == OptInt(a.p + 1, "None") IN
  IF ~Is(a.p, ",") \/ ~b.ok THEN No ELSE
  IF Is(b.p, ")") THEN Yes(b.p + 1, SliceT(a.v, b.v, <<>>)) ELSE
  LET c == OptInt(b.p + 1, "None") IN
  IF Is(b.p, ",") /\ c.ok /\ Is(c.p, ")") THEN Yes(c.p + 1, SliceT(a.v, b.v, c.v)) ELSE No
\* elements of a parenthesised tuple read so far: acc; the closing bracket ends it
Elem(p) ==
  IF Is(p, "slice") /\ Is(p + 1, "(") THEN Called(p)
  ELSE IF Is(p, "(") THEN Tuple(p + 1, <<>>)
  ELSE LET a == ReadInt(p) IN IF a.ok THEN Yes(a.p, [k |-> "i", v |-> a.v]) ELSE No
Tuple(p, acc) ==
  IF Is(p, ")") THEN Yes(p + 1, [k |-> "t", v |-> acc]) ELSE
  LET e == Elem(p) IN
  IF ~e.ok THEN No
  ELSE IF Is(e.p, ",") THEN Tuple(e.p + 1, Append(acc, e.v))
  ELSE IF Is(e.p, ")") THEN (IF acc = <<>> THEN Yes(e.p + 1, e.v)          \* (x) is x
                             ELSE Yes(e.p + 1, [k |-> "t", v |-> Append(acc, e.v)]))
  ELSE No
Item(p) == IF Is(p, "(") \/ Is(p, "slice") THEN Elem(p) ELSE Bare(p)
Items(p, acc) ==
  IF Is(p, "]") /\ acc # <<>> THEN Yes(p + 1, [k |-> "t", v |-> acc]) ELSE
  LET e == Item(p) IN
  IF ~e.ok THEN No
  ELSE IF Is(e.p, ",") THEN Items(e.p + 1, Append(acc, e.v))
  ELSE IF Is(e.p, "]") THEN Yes(e.p + 1, IF acc = <<>> THEN e.v ELSE [k |-> "t", v |-> Append(acc, e.v)])
  ELSE No
RECURSIVE Params(_, _)
Params(p, acc) ==
  IF Is(p, ")") THEN Yes(p + 1, acc) ELSE
  LET a == Param(p) IN
  IF ~a.ok THEN No
  ELSE IF Is(a.p, ",") THEN Params(a.p + 1, Append(acc, a.v))
  ELSE IF Is(a.p, ")") THEN Yes(a.p + 1, Append(acc, a.v)) ELSE No

Bad(why) == verdict' = why /\ UNCHANGED <<id, pos, n, ops>>
Init == id \in 1..Len(Cases) /\ pos = 1 /\ n = -1 /\ ops = <<>> /\ verdict = ""
Header ==
  /\ verdict = "" /\ n = -1
  /\ IF Is(1, Cases[id].head) /\ Is(2, "(") /\ ReadInt(3).ok /\ Is(ReadInt(3).p, ")")
     THEN n' = ReadInt(3).v /\ pos' = ReadInt(3).p + 1 /\ UNCHANGED <<id, ops, verdict>>
     ELSE Bad("no header")
Statement ==
  /\ verdict = "" /\ n >= 0 /\ ~End(pos)
  /\ LET ps == IF Is(pos + 2, "(") THEN Params(pos + 3, <<>>) ELSE Yes(pos + 2, <<>>)
         ts == IF ps.ok /\ Is(ps.p, "[") THEN Items(ps.p + 1, <<>>) ELSE No
     IN  IF Is(pos, ".") /\ ~End(pos + 1) /\ T[pos + 1].k = "name" /\ ts.ok
         THEN /\ ops' = Append(ops, [g |-> T[pos + 1].s, p |-> ps.v, t |-> ts.v])
              /\ n' = Grow(n, ts.v) /\ pos' = ts.p /\ UNCHANGED <<id, verdict>>
         ELSE Bad("not an expression")

Alias(g) == CASE g = "m" -> "measure" [] g = "cnot" -> "cx" [] g = "toffoli" -> "ccx" [] g = "cr" -> "cphase" [] g = "r" -> "phase" [] OTHER -> g
Two == {"cx", "cz", "cy", "ch", "swap", "crx", "cry", "crz", "cphase", "cu1", "cu2", "cu3", "rxx", "ryy", "rzz"}
Three == {"ccx", "cswap", "ccz"}
Acts(o, m) == IF Alias(o.g) \in Three THEN ResolveTriple(o.t, m) ELSE IF Alias(o.g) \in Two THEN ResolvePairs(o.t, m) ELSE Resolve(o.t, m)
Want == Cases[id].ops
\* the same meaning for the size at which it was printed and for larger ones
SameOp(a, b) == Alias(a.g) = Alias(b.g) /\ a.p = b.p /\ \A m \in Cases[id].n..(Cases[id].n + 4) : Acts(a, m) = Acts(b, m)
Finish ==
  /\ verdict = "" /\ n >= 0 /\ End(pos)
  /\ LET v == IF n # Cases[id].n THEN "another number of qubits"
              ELSE IF Len(ops) # Len(Want) THEN "another number of gates"
              ELSE IF \E i \in 1..Len(ops) : ~SameOp(ops[i], Want[i]) THEN "another gate" ELSE "same"
     IN verdict' = v
  /\ UNCHANGED <<id, pos, n, ops>>
Verdict == /\ verdict \notin {"", "told"}
           /\ CSVWrite("%1$s", <<ToJson([id |-> id, v |-> verdict, pos |-> pos, ops |-> ops])>>, IOEnv.OUT \o "." \o ToString(id % 64))
           /\ verdict' = "told" /\ UNCHANGED <<id, pos, n, ops>>
Next == Header \/ Statement \/ Finish \/ Verdict
Spec == Init /\ [][Next]_vars
\* the reader only moves forward and never past the end
Forward == [][pos' >= pos]_vars
Inside == pos <= Len(T) + 1
=============================================================================
