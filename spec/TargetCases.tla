---------------------------- MODULE TargetCases ----------------------------
(***************************************************************************)
(* C04.  A case starts with a circuit of n qubits and appends operations;   *)
(* each append grows the register to the largest named qubit, and all       *)
(* targets are resolved against the final register.  Two sources of cases:  *)
(*   "file": IN holds a sequence of [n, ops] with ops of [k, t],            *)
(*           k = 1, 2, 3 the number of qubits of the gate                   *)
(*   "enum": all single target expressions over a small range of integers   *)
(***************************************************************************)
EXTENDS Targets, TLC, Json, IOUtils, CSV
CONSTANTS Source, MaxQ, Neg, Hi
Lo == 0 - Neg
File == IF Source = "file" THEN JsonDeserialize(IOEnv.IN) ELSE <<>>

Opt == {<<>>} \cup {<<v>> : v \in Lo..Hi}
Steps == {<<>>, <<1>>, <<2>>, <<3>>, <<-1>>, <<-2>>, <<-3>>, <<0>>}
Ints == {[k |-> "i", v |-> v] : v \in Lo..Hi}
Slices == {[k |-> "s", a |-> a, b |-> b, c |-> c] : a \in Opt, b \in Opt, c \in Steps}
Enum == {<<n, <<[k |-> 1, t |-> e]>> >> : n \in 0..MaxQ, e \in Ints \cup Slices}

VARIABLES id, n0, ops, pos, n, ns
vars == <<id, n0, ops, pos, n, ns>>
Init == /\ pos = 1 /\ ns = <<>>
        /\ IF Source = "file"
           THEN id \in 1..Len(File) /\ n0 = File[id].n /\ ops = File[id].ops
           ELSE \E c \in Enum : id = 0 /\ n0 = c[1] /\ ops = c[2]
        /\ n = n0
AppendOp == /\ pos <= Len(ops)
            /\ n' = Grow(n, ops[pos].t)
            /\ ns' = Append(ns, n')
            /\ pos' = pos + 1 /\ UNCHANGED <<id, n0, ops>>
Res(op) == CASE op.k = 1 -> LET r == Resolve(op.t, n) IN IF r.ok THEN Good([i \in 1..Len(r.q) |-> <<r.q[i]>>]) ELSE Err
             [] op.k = 2 -> ResolvePairs(op.t, n)
             [] op.k = 3 -> ResolveTriple(op.t, n)
Finish == /\ pos = Len(ops) + 1
          /\ pos' = pos + 1
          /\ CSVWrite("%1$s", <<ToJson([id |-> id, n0 |-> n0, ops |-> ops, ns |-> ns, res |-> [i \in 1..Len(ops) |-> Res(ops[i])]])>>, IOEnv.OUT \o "." \o ToString(id % 128))
          /\ UNCHANGED <<id, n0, ops, n, ns>>
Next == AppendOp \/ Finish
Spec == Init /\ [][Next]_vars

\* the register never shrinks and always covers the named qubits
Monotone == [][n' >= n]_vars
NamesInside == \A i \in 1..(pos - 1) : i <= Len(ops) => MaxNamed(ops[i].t) < n \/ n = 0
\* resolution is into the register and, for non-negative integers, never fails
ResInside == \A i \in 1..(pos - 1) : i <= Len(ops) =>
               LET r == Res(ops[i]) IN r.ok => \A j \in 1..Len(r.q) : \A m \in 1..Len(r.q[j]) : r.q[j][m] \in 0..(n - 1)
NonNegOK == \A i \in 1..(pos - 1) : (i <= Len(ops) /\ ops[i].k = 1 /\ ops[i].t.k = "i" /\ ops[i].t.v >= 0) => Res(ops[i]) = Good(<< <<ops[i].t.v>> >>)
\* a slice resolves to the same set as filtering the register by its bounds (step 1)
SliceFilter == \A i \in 1..(pos - 1) : (i <= Len(ops) /\ ops[i].k = 1 /\ ops[i].t.k = "s" /\ ops[i].t.c \in {<<>>, <<1>>} ) =>
   LET t == ops[i].t
       nb(x) == IF x < 0 THEN x + n ELSE x
       S == {q \in 0..(n - 1) : (Len(t.a) = 0 \/ nb(t.a[1]) <= q) /\ (Len(t.b) = 0 \/ q < nb(t.b[1]))}
   IN  Res(ops[i]).q = [j \in 1..Cardinality(S) |-> <<CHOOSE q \in S : Cardinality({r \in S : r < q}) = j - 1>>]
=============================================================================
