------------------------------ MODULE Helpers ------------------------------
(***************************************************************************)
(* Result helpers (C22).  Three kinds of behaviours, chosen by In.kind:      *)
(*  "str":   a string grows character by character over In.alphabet; every   *)
(*           string up to In.max characters is emitted with its conversion   *)
(*           (a tuple of 0/1, or no value if another character occurs).      *)
(*  "count": samples (bit lists of In.bits bits) arrive one by one; cnt is   *)
(*           the multiset of samples seen (Counter).                         *)
(*  "phase": all vectors of In.max Gaussian integers from In.nums; the       *)
(*           vector is brought to normal form by the conjugate of its first  *)
(*           non-zero entry (up to the positive factor |a|).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
In == JsonDeserialize(IOEnv.IN)
Range(s) == {s[i] : i \in 1..Len(s)}
VARIABLES seq, cnt
vars == <<seq, cnt>>

Bit(c) == IF c = "0" THEN 0 ELSE 1
Legal(s) == \A i \in 1..Len(s) : s[i] \in {"0", "1"}
Conv(s) == [i \in 1..Len(s) |-> Bit(s[i])]
Key(s) == IF s = <<>> THEN "" ELSE LET RECURSIVE J(_) J(i) == IF i > Len(s) THEN "" ELSE ToString(s[i]) \o J(i + 1) IN J(1)
Inc(c, k) == IF k \in DOMAIN c THEN [c EXCEPT ![k] = @ + 1] ELSE (k :> 1) @@ c

Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Conj(a) == <<a[1], 0 - a[2]>>
Zero == <<0, 0>>
NZ(v) == {i \in 1..Len(v) : v[i] # Zero}
First(v) == CHOOSE i \in NZ(v) : \A j \in NZ(v) : i <= j
Normal(v) == IF NZ(v) = {} THEN v ELSE [i \in 1..Len(v) |-> Mul(v[i], Conj(v[First(v)]))]

Init == seq = <<>> /\ cnt = <<>>
Emit(r) == CSVWrite("%1$s", <<ToJson(r)>>, IOEnv.OUT)
Char == In.kind = "str" /\ Len(seq) < In.max /\ \E c \in Range(In.alphabet) :
          seq' = Append(seq, c) /\ UNCHANGED cnt
          /\ Emit([s |-> seq', ok |-> Legal(seq'), t |-> IF Legal(seq') THEN Conv(seq') ELSE <<>>])
Sample == In.kind = "count" /\ Len(seq) < In.max /\
          \E b \in {RandomElement([1..In.bits -> {0, 1}])} :
          /\ seq' = Append(seq, b) /\ cnt' = Inc(cnt, Key(b))
          /\ Len(seq') = In.max => Emit([s |-> seq', c |-> cnt'])
Entry == In.kind = "phase" /\ Len(seq) < In.max /\ \E z \in Range(In.nums) :
          /\ seq' = Append(seq, <<z[1] - 5, z[2] - 5>>) /\ UNCHANGED cnt
          /\ Len(seq') = In.max => Emit([v |-> seq', w |-> Normal(seq')])
Next == Char \/ Sample \/ Entry
Spec == Init /\ [][Next]_vars

\* legal strings and tuples correspond one to one
Faithful == In.kind = "str" /\ Legal(seq) => Len(Conv(seq)) = Len(seq) /\ \A i \in 1..Len(seq) : ToString(Conv(seq)[i]) = seq[i]
\* every sample is counted exactly once
RECURSIVE Sum(_, _)
Sum(c, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN c[k] + Sum(c, S \ {k})
Total == In.kind = "count" => Sum(cnt, DOMAIN cnt) = Len(seq)
Each == In.kind = "count" => \A k \in DOMAIN cnt : cnt[k] = Cardinality({i \in 1..Len(seq) : Key(seq[i]) = k})
\* the normal form has a real positive leading entry and the ratios of the vector
Leading == In.kind = "phase" /\ NZ(seq) # {} =>
             LET w == Normal(seq) f == First(seq) IN w[f][1] > 0 /\ w[f][2] = 0 /\ First(w) = f
Ratios == In.kind = "phase" => LET w == Normal(seq) IN
             \A i \in 1..Len(seq) : \A j \in 1..Len(seq) : Mul(seq[i], w[j]) = Mul(seq[j], w[i])
\* normal forms are unchanged up to the positive factor
Idem == In.kind = "phase" /\ NZ(seq) # {} => LET w == Normal(seq) IN Normal(w) = [i \in 1..Len(w) |-> Mul(w[i], w[First(w)])]
=============================================================================
