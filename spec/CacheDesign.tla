---------------------------- MODULE CacheDesign ----------------------------
(***************************************************************************)
(* Design of the simulator's state cache (property C02).  Circuits are      *)
(* lists of gate objects (objects have identity: copies of a circuit share  *)
(* them); a backend object keeps the vector reached by a prefix of the      *)
(* gates it ran.  A vector is represented by what it was computed from:     *)
(* <<n, sequence of gate kinds>>.  Kind "m" is a measurement: nothing is    *)
(* cached from there on.  Kind "e" is a gate that raises an error.          *)
(* Valid selects the rule by which a cache is reused:                       *)
(*   "gates"  same gate objects as a prefix, same size   (the library)      *)
(*   "length" the cache isn't longer than the circuit, same size            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NC, NB, MaxLen, MaxN, Kinds, Valid
VARIABLES circ, bk, fresh, last
vars == <<circ, bk, fresh, last>>

Empty == [n |-> 0, vec |-> <<>>, ids |-> <<>>, on |-> FALSE]
\* a gate object: <<identity, kind>>
Init == /\ circ = [c \in 1..NC |-> [n |-> 1, ops |-> <<>>]]
        /\ bk = [b \in 1..NB |-> Empty]
        /\ fresh = 1
        /\ last = <<>>

KindsOf(s) == [i \in 1..Len(s) |-> s[i][2]]
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

Reusable(b, c) ==
  /\ bk[b].on
  /\ bk[b].n = circ[c].n
  /\ CASE Valid = "gates"  -> IsPrefixOf(bk[b].ids, circ[c].ops)
       [] Valid = "length" -> Len(bk[b].ids) <= Len(circ[c].ops)

Stop == {"m", "e"}
FirstM(s) == IF \E i \in 1..Len(s) : s[i][2] \in Stop
             THEN CHOOSE i \in 1..Len(s) : s[i][2] \in Stop /\ \A j \in 1..(i - 1) : s[j][2] \notin Stop
             ELSE Len(s) + 1

Append1(c, k) == /\ Len(circ[c].ops) < MaxLen
                 /\ circ' = [circ EXCEPT ![c].ops = Append(@, <<fresh, k>>)]
                 /\ fresh' = fresh + 1 /\ last' = <<>> /\ UNCHANGED bk
Grow(c) == /\ circ[c].n < MaxN /\ circ' = [circ EXCEPT ![c].n = @ + 1] /\ last' = <<>> /\ UNCHANGED <<bk, fresh>>
Copy(c, d) == /\ c # d /\ circ' = [circ EXCEPT ![d] = circ[c]] /\ last' = <<>> /\ UNCHANGED <<bk, fresh>>
Concat(c, d) == /\ Len(circ[c].ops) + Len(circ[d].ops) <= MaxLen
                /\ circ' = [circ EXCEPT ![c] = [n |-> IF @.n > circ[d].n THEN @.n ELSE circ[d].n,
                                                ops |-> @.ops \o circ[d].ops]]
                /\ last' = <<>> /\ UNCHANGED <<bk, fresh>>
NewCircuit(c) == /\ circ' = [circ EXCEPT ![c] = [n |-> 1, ops |-> <<>>]] /\ last' = <<>> /\ UNCHANGED <<bk, fresh>>
CopyBackend(a, b) == /\ a # b /\ bk' = [bk EXCEPT ![b] = bk[a]] /\ last' = <<>> /\ UNCHANGED <<circ, fresh>>
Run(c, b) ==
  LET ops == circ[c].ops
      use == Reusable(b, c)
      start == IF use THEN bk[b].vec ELSE <<>>
      skip == IF use THEN Len(bk[b].ids) ELSE 0
      vec == start \o KindsOf(SubSeq(ops, skip + 1, Len(ops)))
      k == FirstM(ops) - 1                       \* gates that may be cached
      \* caching proceeds from the old cache while no measurement was met
      newids == IF k >= skip THEN SubSeq(ops, 1, k) ELSE SubSeq(ops, 1, skip)
      newvec == IF k >= skip THEN start \o KindsOf(SubSeq(ops, skip + 1, k)) ELSE start
      fails == \E i \in (skip + 1)..Len(ops) : ops[i][2] = "e"
  IN  /\ last' = IF fails THEN <<c, "error">> ELSE <<c, vec>>
      /\ bk' = [bk EXCEPT ![b] = IF Len(newids) = 0 THEN Empty
                                  ELSE [n |-> circ[c].n, vec |-> newvec, ids |-> newids, on |-> TRUE]]
      /\ UNCHANGED <<circ, fresh>>

Next == \/ \E c \in 1..NC : (\E k \in Kinds : Append1(c, k)) \/ Grow(c) \/ NewCircuit(c) \/ (\E d \in 1..NC : Copy(c, d) \/ Concat(c, d))
        \/ \E c \in 1..NC, b \in 1..NB : Run(c, b)
        \/ \E a, b \in 1..NB : CopyBackend(a, b)
Spec == Init /\ [][Next]_vars
Bound == fresh <= MaxLen + 2

\* the property: the computed vector is the one of the circuit's own gates
ResultOK == (last # <<>>) => LET k == KindsOf(circ[last[1]].ops)
                             IN  last[2] = IF \E i \in 1..Len(k) : k[i] = "e" THEN "error" ELSE k
\* a kept vector is the one of the gates it is filed under
CacheOK == \A b \in 1..NB : bk[b].on => bk[b].vec = KindsOf(bk[b].ids)
=============================================================================
