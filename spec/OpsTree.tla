------------------------------ MODULE OpsTree ------------------------------
(***************************************************************************)
(* Immutable operation lists (C19).  The state is the sequence of all values *)
(* made so far; a value is [n, ops] with ops a sequence of tokens            *)
(* <<operation of the table, 1 if inverted>>.  Every step only adds values:  *)
(* the earlier ones are never changed (Persistent), whatever is derived from *)
(* them and whatever is done with circuits made from them.                   *)
(* IN: [ops (table), bad (number of calls that must raise), maxops, maxn,    *)
(*      depth, sizes].                                                       *)
(***************************************************************************)
EXTENDS Targets, TLC, Json, IOUtils, CSV
In == JsonDeserialize(IOEnv.IN)
OpTab == In.ops
VARIABLES vals, hist, done
vars == <<vals, hist, done>>

IsMeas(i) == OpTab[i].g \in {"measure", "m", "reset"}
HasMeas(v) == \E j \in 1..Len(v.ops) : IsMeas(v.ops[j][1])
Max2(a, b) == IF a > b THEN a ELSE b
Dag(o) == [j \in 1..Len(o) |-> <<o[Len(o) + 1 - j][1], 1 - o[Len(o) + 1 - j][2]>>]
Pick(S) == RandomElement(S)
\* prefer recent values now and then, so that chains and branchings both get long
PickV == IF RandomElement(1..3) = 1 THEN {Len(vals)} ELSE {Pick(1..Len(vals))}

Init == vals = << [n |-> 0, ops |-> <<>>] >> /\ hist = <<>> /\ done = FALSE
Ev(a) == hist' = Append(hist, a) /\ UNCHANGED done
NewV(v) == vals' = Append(vals, v)

New == \E n \in {Pick({In.sizes[i] : i \in 1..Len(In.sizes)})} :
  NewV([n |-> n, ops |-> <<>>]) /\ Ev([a |-> "new", n |-> n])
AppendOp == \E v \in PickV : \E i \in {Pick(1..Len(OpTab))} :
  /\ Len(vals[v].ops) < In.maxops /\ Grow(vals[v].n, OpTab[i].t) <= In.maxn
  /\ NewV([n |-> Grow(vals[v].n, OpTab[i].t), ops |-> Append(vals[v].ops, <<i, 0>>)])
  /\ Ev([a |-> "append", v |-> v, i |-> i])
Add == \E v \in {Pick(1..Len(vals))} : \E w \in PickV :
  /\ Len(vals[v].ops) + Len(vals[w].ops) <= In.maxops
  /\ NewV([n |-> Max2(vals[v].n, vals[w].n), ops |-> vals[v].ops \o vals[w].ops])
  /\ Ev([a |-> "add", v |-> v, w |-> w])
Dagger == \E v \in PickV :
  /\ IF HasMeas(vals[v]) THEN UNCHANGED vals ELSE NewV([n |-> vals[v].n, ops |-> Dag(vals[v].ops)])
  /\ Ev([a |-> "dagger", v |-> v, raises |-> HasMeas(vals[v])])
Bad == In.bad > 0 /\ \E v \in PickV : \E i \in {Pick(1..In.bad)} :
  UNCHANGED vals /\ Ev([a |-> "bad", v |-> v, i |-> i])
\* a circuit made from a value is a mutable object of its own: k says what is done with it
Circ == \E v \in PickV : \E i \in {Pick(1..Len(OpTab))} : \E k \in {Pick({"append", "run", "iadd", "clear", "cache"})} :
  UNCHANGED vals /\ Ev([a |-> "circuit", v |-> v, i |-> i, k |-> k])
Finish == /\ Len(hist) = In.depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<vals, hist>>
          /\ CSVWrite("%1$s", <<ToJson([h |-> hist, v |-> vals])>>, IOEnv.OUT)
Step == \E k \in {Pick(1..12)} :
  \/ k <= 6 /\ AppendOp
  \/ k = 7 /\ New
  \/ k = 8 /\ Bad
  \/ k = 9 /\ Add
  \/ k = 10 /\ Dagger
  \/ k \in 11..12 /\ Circ
  \/ k \in {6, 8, 9} /\ Circ
Next == (Len(hist) < In.depth /\ Step) \/ Finish
Spec == Init /\ [][Next]_vars
Bounded == \A v \in 1..Len(vals) : vals[v].n <= In.maxn /\ Len(vals[v].ops) <= In.maxops
Persistent == [][Len(vals') >= Len(vals) /\ \A v \in 1..Len(vals) : vals'[v] = vals[v]]_vars
=============================================================================
