------------------------------ MODULE GateLaws ------------------------------
(***************************************************************************)
(* Laws of the gate set, checked by TLC for ALL angles at once (they are    *)
(* polynomial identities) on every placement of the gate on N qubits:       *)
(*   unitarity, dagger o gate = 1, fallback = gate (up to a global phase),  *)
(*   fallback through a minimal backend, exactness where claimed.           *)
(***************************************************************************)
EXTENDS Gates
CONSTANT N
VARIABLES g, q, done

A(j) == 4 * (256 ^ (j - 1))
Params(gg) == [i \in 1..NParams(gg) |-> <<A(i), 0>>]
Perms(k) == {s \in [1..k -> 0..(N - 1)] : \A i, j \in 1..k : i # j => s[i] # s[j]}
Arity(gg) == IF gg \in OneQ THEN 1 ELSE IF gg \in TwoQ THEN 2 ELSE 3
AllG == Unitary

\* four indices: a two-qubit operation on two pairs, which may share qubits
Op(gg, qq, p) == [g |-> gg, p |-> p,
   t |-> IF Len(qq) = 4 THEN [k |-> "t", v |-> << [k |-> "t", v |-> <<Ti(qq[1]), Ti(qq[3])>>],
                                                   [k |-> "t", v |-> <<Ti(qq[2]), Ti(qq[4])>>] >>]
         ELSE IF Len(qq) = 1 THEN Ti(qq[1]) ELSE [k |-> "t", v |-> [i \in 1..Len(qq) |-> Ti(qq[i])]]]

U(ops) == ApplyOps(ChoiInit(N), ops, N)
MyOp == Op(g, q, Params(g))

Minimal == {"h","cx","rz","rx","ry","u3","cz","x","y","z"} 
Minimal2 == {"x","y","z","h","rx","ry","rz","u3","cx","cz","ccz"}

Init == /\ done = FALSE
        /\ \/ g \in AllG /\ q \in UNION {Perms(k) : k \in 1..3} /\ Len(q) = Arity(g)
           \/ g \in TwoQ /\ q \in {a \o b : a \in Perms(2), b \in Perms(2)}
Next == ~done /\ done' = TRUE /\ UNCHANGED <<g, q>>
Spec == Init /\ [][Next]_<<g, q, done>>

UnitaryLaw == HasNorm(U(<<MyOp>>), Pow2(N))
DaggerLaw  == SameState(U(<<MyOp, DaggerOp(MyOp)>>), ChoiInit(N))
Dagger2Law == SameState(U(<<DaggerOp(DaggerOp(MyOp))>>), U(<<MyOp>>))
FallbackLaw == (HasFallback(g) /\ Len(q) < 4) => SamePhase(U(FallbackOn(g, Params(g), q)), U(<<MyOp>>))
FlattenLaw == (g # "ccz") => SamePhase(U(Flatten(<<MyOp>>, N, Minimal)), U(<<MyOp>>))
\* decompositions that keep even the global phase
ExactFallback == {"i","cy","ch","crx","cry","crz","rxx","ryy","rzz","swap","u1","u2","cu2","cu3","cswap","t","tdg","s","sdg","ccx"}
ExactLaw == (g \in ExactFallback /\ Len(q) < 4) => SameState(U(FallbackOn(g, Params(g), q)), U(<<MyOp>>))
\* documented conventions
DetLaw == g = "u1" => SameState(U(<<MyOp>>), U(<<Op("rz", q, Params(g))>>))
CuLaw  == g = "cu1" => SameState(U(<<MyOp>>), U(<<Op("cphase", q, Params(g))>>))
=============================================================================
