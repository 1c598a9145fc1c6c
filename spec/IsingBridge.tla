---------------------------- MODULE IsingBridge ----------------------------
(***************************************************************************)
(* C24.  A problem over 0/1 variables that is edited, annealed and handed    *)
(* over to an Ising machine (D-Wave).  The machine knows spins s = 2b - 1     *)
(* only: it is given linear coefficients h, couplings J on the edges of its   *)
(* graph, and answers with spins.  State: the current problem q (upper        *)
(* triangular, integers) and the graph of the machine.                        *)
(* An event "dw" carries four times h, J and the offset, and the bits that    *)
(* are to be returned for the machine's answer.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, CSV, IOUtils
CONSTANTS MaxN, Depth
VARIABLES n, q, hist, tick
vars == <<n, q, hist, tick>>
Pick(S) == RandomElement(S)
Vals == -9..9
Big == {-40001, -800, 513, 4000, 100003}      \* beside small ones: nothing may be rounded away
Pairs(k) == {p \in (0..(k - 1)) \X (0..(k - 1)) : p[1] < p[2]}
SumF(f(_), S) == FoldLeft(LAMBDA acc, e : acc + f(e), 0, SetToSeq(S))
At(m, k, i, j) == IF i < k /\ j < k /\ i <= j THEN m[<<i, j>>] ELSE 0
Upper(k) == {p \in (0..(k - 1)) \X (0..(k - 1)) : p[1] <= p[2]}
RandM(k, dense) == [p \in Upper(k) |-> IF dense \/ Pick(0..1) = 1 THEN Pick(IF Pick(0..5) = 0 THEN Big ELSE Vals) ELSE 0]
MatOut(m, k) == [i \in 1..k |-> [j \in 1..k |-> At(m, k, i - 1, j - 1)]]

\* four times the Ising form
H(m, k, i) == 2 * m[<<i, i>>] + SumF(LAMBDA p : IF i \in {p[1], p[2]} THEN m[p] ELSE 0, Pairs(k))
J(m, p) == m[p]
Off(m, k) == 2 * SumF(LAMBDA i : m[<<i, i>>], 0..(k - 1)) + SumF(LAMBDA p : m[p], Pairs(k))

Init == n = 0 /\ q = <<>> /\ hist = <<>> /\ tick = 0
Log(e) == hist' = Append(hist, e) /\ tick' = tick + 1
Assign == \E k \in {Pick(1..MaxN)} : \E m \in {TLCEval(RandM(k, Pick(0..1) = 1))} :
            n' = k /\ q' = m /\ Log([a |-> "set", m |-> MatOut(m, k)])
Add == n > 0 /\ \E k \in {Pick(1..MaxN)} : \E m \in {TLCEval(RandM(k, FALSE))} : \E f \in {Pick({1, 2, -1, 3})} :
            LET w == IF k > n THEN k ELSE n IN
            /\ \A p \in Upper(w) : At(q, n, p[1], p[2]) + f * At(m, k, p[1], p[2]) \in -9000000..9000000
            /\ n' = w /\ q' = [p \in Upper(w) |-> At(q, n, p[1], p[2]) + f * At(m, k, p[1], p[2])]
            /\ Log([a |-> "add", m |-> MatOut(m, k), f |-> f])
Anneal == n > 0 /\ UNCHANGED <<n, q>> /\ Log([a |-> "run"])
\* the machine: nodes 0 .. n-1+extra; an edge for every coupling and possibly more
Submit == n > 0 /\ \E extra \in {Pick(0..3)} : \E b \in {TLCEval([i \in 0..(n + extra - 1) |-> Pick({0, 1})])} :
            \E more \in {TLCEval({p \in Pairs(n + extra) : Pick(0..2) > 0})} :
            LET edges == {p \in Pairs(n) : q[p] # 0} \cup more IN
            /\ UNCHANGED <<n, q>>
            /\ Log([a |-> "dw", nodes |-> n + extra, edges |-> SetToSeq(edges),
                    h |-> [i \in 1..n |-> H(q, n, i - 1)],
                    j |-> SetToSeq({<<p[1], p[2], q[p]>> : p \in {p \in Pairs(n) : q[p] # 0}}),
                    off |-> Off(q, n), spins |-> [i \in 1..(n + extra) |-> 2 * b[i - 1] - 1],
                    bits |-> [i \in 1..n |-> b[i - 1]]])
Finish == Len(hist) = Depth /\ tick = Depth /\ tick' = tick + 1 /\ UNCHANGED <<n, q, hist>> /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
Next == IF Len(hist) < Depth THEN (IF n = 0 THEN Assign ELSE Assign \/ Add \/ Anneal \/ Submit \/ Submit) ELSE Finish
Spec == Init /\ [][Next]_vars

\* the Ising form has the energy of the problem for every assignment
EnergyOK == n > 0 => \A b \in [0..(n - 1) -> {0, 1}] :
   LET s(i) == 2 * b[i] - 1 IN
   4 * SumF(LAMBDA p : q[p] * b[p[1]] * b[p[2]], Upper(n)) =
     Off(q, n) + SumF(LAMBDA i : H(q, n, i) * s(i), 0..(n - 1)) + SumF(LAMBDA p : J(q, p) * s(p[1]) * s(p[2]), Pairs(n))
\* an event refers to the problem of that moment only
SizeOK == hist # <<>> /\ hist[Len(hist)].a = "dw" => Len(hist[Len(hist)].h) = n /\ Len(hist[Len(hist)].bits) = n
=============================================================================
