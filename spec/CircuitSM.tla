----------------------------- MODULE CircuitSM -----------------------------
(***************************************************************************)
(* Circuits as values (C02, C03, C04): a state machine over a few circuit   *)
(* variables.  IN holds                                                     *)
(*   [ops   sequence of operations [g, p, t] (t: target expression),        *)
(*    bad   sequence of calls that can never be appended or run,            *)
(*    slots, maxops, maxn, depth, modes (names of ways to run), sizes]      *)
(* A circuit is [n, ops] with ops a sequence of tokens <<i, d>>: operation i *)
(* of the table, inverted when d = 1.  Appending grows n to the largest     *)
(* qubit that the target expression names.  In simulation mode every        *)
(* behaviour is written out with the value of all circuits after each step. *)
(***************************************************************************)
EXTENDS Targets, TLC, Json, IOUtils, CSV
In == JsonDeserialize(IOEnv.IN)
NS == In.slots
OpTab == In.ops
Slots == 1..NS
Live(t) == Len(t.ops) > 0 \/ t.n > 0

VARIABLES circ, hist, done
vars == <<circ, hist, done>>

IsMeas(i) == OpTab[i].g \in {"measure", "m", "reset"}
HasMeas(c) == \E j \in 1..Len(c.ops) : IsMeas(c.ops[j][1])
Max2(a, b) == IF a > b THEN a ELSE b
NewN(n, i) == Grow(n, OpTab[i].t)

Init == circ = [s \in Slots |-> [n |-> 0, ops |-> <<>>]] /\ hist = <<>> /\ done = FALSE
Ev(a) == hist' = Append(hist, a) /\ UNCHANGED done
Room == Len(hist) < In.depth

Pick(S) == RandomElement(S)          \* one successor per kind of step

New == \E s \in {Pick(Slots)} : \E n \in {Pick({In.sizes[i] : i \in 1..Len(In.sizes)})} :
  /\ circ' = [circ EXCEPT ![s] = [n |-> n, ops |-> <<>>]]
  /\ Ev([a |-> "new", s |-> s, n |-> n, post |-> circ'])
AppendOp == \E s \in {Pick(Slots)} : \E i \in {Pick(1..Len(OpTab))} :
  /\ Len(circ[s].ops) < In.maxops /\ NewN(circ[s].n, i) <= In.maxn
  /\ circ' = [circ EXCEPT ![s] = [n |-> NewN(@.n, i), ops |-> Append(@.ops, <<i, 0>>)]]
  /\ Ev([a |-> "append", s |-> s, i |-> i, post |-> circ'])
BadAppend == Len(In.bad) > 0 /\ \E s \in {Pick(Slots)} : \E i \in {Pick(1..Len(In.bad))} :
  /\ UNCHANGED circ
  /\ Ev([a |-> "bad", s |-> s, i |-> i, post |-> circ'])
Add == \E x \in {Pick(Slots)} : \E y \in {Pick(Slots)} : \E z \in {Pick(Slots)} :
  /\ Len(circ[x].ops) + Len(circ[y].ops) <= In.maxops
  /\ circ' = [circ EXCEPT ![z] = [n |-> Max2(circ[x].n, circ[y].n), ops |-> circ[x].ops \o circ[y].ops]]
  /\ Ev([a |-> "add", x |-> x, y |-> y, z |-> z, post |-> circ'])
IAdd == \E x \in {Pick(Slots)} : \E y \in {Pick(Slots)} :
  /\ Len(circ[x].ops) + Len(circ[y].ops) <= In.maxops
  /\ circ' = [circ EXCEPT ![x] = [n |-> Max2(circ[x].n, circ[y].n), ops |-> circ[x].ops \o circ[y].ops]]
  /\ Ev([a |-> "iadd", x |-> x, y |-> y, post |-> circ'])
Copy == \E x \in {Pick(Slots)} : \E z \in {Pick(Slots)} : \E b \in {Pick(BOOLEAN)} :
  /\ circ' = [circ EXCEPT ![z] = circ[x]]
  /\ Ev([a |-> "copy", x |-> x, z |-> z, b |-> b, post |-> circ'])
Dag(o) == [j \in 1..Len(o) |-> <<o[Len(o) + 1 - j][1], 1 - o[Len(o) + 1 - j][2]>>]
Unit(o) == SelectSeq(o, LAMBDA t : ~IsMeas(t[1]))
Dagger == \E x \in {Pick(Slots)} : \E z \in {Pick(Slots)} : \E b \in {Pick(BOOLEAN)} : \E ign \in {Pick(BOOLEAN)} :
  /\ circ' = IF HasMeas(circ[x]) /\ ~ign THEN circ
             ELSE [circ EXCEPT ![z] = [n |-> circ[x].n, ops |-> Dag(Unit(circ[x].ops))]]
  /\ Ev([a |-> "dagger", x |-> x, z |-> z, b |-> b, ign |-> ign, raises |-> HasMeas(circ[x]) /\ ~ign, post |-> circ'])
Run == \E s \in {Pick(Slots)} : \E m \in {Pick(1..Len(In.modes))} :
  /\ UNCHANGED circ
  /\ Ev([a |-> "run", s |-> s, m |-> In.modes[m], post |-> circ'])
Finish == /\ Len(hist) = In.depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<circ, hist>>
          /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
\* relative frequencies of the steps in generated histories
Step == \E k \in {Pick(1..24)} :
  \/ k <= 8 /\ AppendOp
  \/ In.long /\ k \in {13, 14, 15, 16, 17} /\ IAdd       \* histories in which circuits grow long
  \/ k \in 9..15 /\ (k <= 12 \/ ~In.long) /\ Run
  \/ k = 16 /\ ~In.long /\ New
  \/ k = 17 /\ ~In.long /\ BadAppend
  \/ k \in 18..19 /\ Add
  \/ k = 20 /\ IAdd
  \/ k \in 21..22 /\ Copy
  \/ k \in 23..24 /\ Dagger
  \/ k \in {8, 17, 19, 20} /\ Run          \* in case these are disabled
Next == (Room /\ Step) \/ Finish
Spec == Init /\ [][Next]_vars

TypeOK == \A s \in Slots : circ[s].n <= In.maxn /\ Len(circ[s].ops) <= In.maxops
\* the register always covers what any appended operation names
Covers == \A s \in Slots : \A j \in 1..Len(circ[s].ops) : MaxNamed(OpTab[circ[s].ops[j][1]].t) < circ[s].n \/ circ[s].n = 0
\* a step changes at most one circuit
OneAtATime == [][Cardinality({s \in Slots : circ'[s] # circ[s]}) <= 1]_vars
=============================================================================
