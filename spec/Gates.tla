------------------------------- MODULE Gates -------------------------------
(***************************************************************************)
(* The gate set: matrices, inverses and decompositions.                     *)
(* A parameter is <<q, c>>, the angle  sum_j q_j a_j / 4 + c * pi/4  with q *)
(* packed like a monomial exponent and even, so exp(i theta/2) = z^c t^(q/2)*)
(* An operation is [g |-> lowername, p |-> seq of params, t |-> target      *)
(* expression]; a resolved application is  [g, p, q |-> sequence of qubits] *)
(***************************************************************************)
EXTENDS QState, Targets

One == << <<0, 0>> >>                \* the number 1 as a sum of monomials
None0 == <<>>                        \* the number 0
Mono(E, c) == << <<E, c>> >>

Half(p) == <<p[1] \div 2, p[2]>>              \* exp(i theta/2)
Full(p) == <<p[1], 2 * p[2]>>                 \* exp(i theta)
MMul(m, n) == <<m[1] + n[1], m[2] + n[2]>>
MInv(m) == <<-m[1], -m[2]>>
MI(m, k) == <<m[1], m[2] + k>>                \* times z^k
Times(l, m) == [i \in 1..Len(l) |-> MMul(l[i], m)]

PNegA(p) == <<-p[1], -p[2]>>                  \* angle arithmetic
PAddA(p, r) == <<p[1] + r[1], p[2] + r[2]>>
PHalfA(p) == <<p[1] \div 2, p[2] \div 2>>     \* only used where c is even
PiOver(k) == <<0, 4 \div k>>                  \* pi/k for k in {1,2,4}

Mat(k, a, b, c, d) == [k |-> k, e00 |-> a, e01 |-> b, e10 |-> c, e11 |-> d]

Cos2(h)  == <<h, MInv(h)>>                          \* 2 cos(theta/2)
MISin2(h) == <<MI(h, 8), MInv(h)>>                  \* -2 i sin(theta/2)
Sin2(h)  == <<MI(h, 12), MI(MInv(h), 4)>>           \* 2 sin(theta/2)
MSin2(h) == <<MI(h, 4), MI(MInv(h), 12)>>           \* -2 sin(theta/2)

MX == Mat(0, None0, One, One, None0)
MY == Mat(0, None0, Mono(0, 12), Mono(0, 4), None0)
MZ == Mat(0, One, None0, None0, Mono(0, 8))
MIdent == Mat(0, One, None0, None0, One)
MH == Mat(1, One, One, One, Mono(0, 8))
MRX(p) == LET h == Half(p) IN Mat(2, Cos2(h), MISin2(h), MISin2(h), Cos2(h))
MRY(p) == LET h == Half(p) IN Mat(2, Cos2(h), MSin2(h), Sin2(h), Cos2(h))
MRZ(p) == LET h == Half(p) IN Mat(0, <<MInv(h)>>, None0, None0, <<h>>)
MPhase(p) == Mat(0, One, None0, None0, <<Full(p)>>)
MU3(th, ph, la) ==
  LET h == Half(th)
      g == MMul(MInv(Half(ph)), MInv(Half(la)))
  IN  Mat(2, Times(Cos2(h), g), Times(MSin2(h), MMul(g, Full(la))),
             Times(Sin2(h), MMul(g, Full(ph))), Times(Cos2(h), MMul(g, MMul(Full(ph), Full(la)))))

OneQ == {"i","x","y","z","h","t","tdg","s","sdg","rx","ry","rz","phase","u1","u2","u3"}
CtrlQ == {"cx","cy","cz","ch","crx","cry","crz","cphase","cu1","cu2","cu3"}
PairQ == {"rxx","ryy","rzz"}
TwoQ == CtrlQ \cup PairQ \cup {"swap"}
ThreeQ == {"ccx","ccz","cswap"}
MeasQ == {"measure","reset"}
Unitary == OneQ \cup TwoQ \cup ThreeQ

Alias(g) == CASE g = "cnot" -> "cx" [] g = "r" -> "phase" [] g = "cr" -> "cphase"
              [] g = "toffoli" -> "ccx" [] g = "m" -> "measure" [] OTHER -> g
NParams(g) == CASE g \in {"rx","ry","rz","phase","u1","crx","cry","crz","cphase","cu1","rxx","ryy","rzz"} -> 1
                [] g \in {"u2","cu2"} -> 2 [] g \in {"u3","cu3"} -> 3 [] OTHER -> 0

M1(g, p) ==
  CASE g = "i" -> MIdent [] g = "x" -> MX [] g = "y" -> MY [] g = "z" -> MZ [] g = "h" -> MH
    [] g = "t" -> MPhase(<<0,1>>) [] g = "tdg" -> MPhase(<<0,-1>>)
    [] g = "s" -> MPhase(<<0,2>>) [] g = "sdg" -> MPhase(<<0,-2>>)
    [] g = "rx" -> MRX(p[1]) [] g = "ry" -> MRY(p[1]) [] g = "rz" -> MRZ(p[1])
    [] g = "phase" -> MPhase(p[1]) [] g = "u1" -> MRZ(p[1])
    [] g = "u2" -> MU3(<<0,2>>, p[1], p[2]) [] g = "u3" -> MU3(p[1], p[2], p[3])

\* the matrix controlled gates apply when the control is 1
MC(g, p) ==
  CASE g = "cx" -> MX [] g = "cy" -> MY [] g = "cz" -> MZ [] g = "ch" -> MH
    [] g = "crx" -> MRX(p[1]) [] g = "cry" -> MRY(p[1]) [] g = "crz" -> MRZ(p[1])
    [] g = "cphase" -> MPhase(p[1]) [] g = "cu1" -> MPhase(p[1])
    [] g = "cu2" -> MU3(<<0,2>>, p[1], p[2]) [] g = "cu3" -> MU3(p[1], p[2], p[3])

\* exp(-i theta/2 P@P): 2cos * 1 - 2i sin * P@P ; P@P maps x to Flip2 with a sign
RowPP(g, h, b, c, y) ==
  LET fx == Flip(Flip(y, b), c)
      eq == Bit(y, b) = Bit(y, c)
      sg == IF eq THEN 8 ELSE 0       \* YY: -1 on 00/11, +1 on 01/10
      ms == MISin2(h)
      neg(l) == [i \in 1..Len(l) |-> MI(l[i], 8)]
  IN  CASE g = "rxx" -> << <<y, Cos2(h)>>, <<fx, ms>> >>
        [] g = "ryy" -> << <<y, Cos2(h)>>, <<fx, [i \in 1..Len(ms) |-> MI(ms[i], sg)]>> >>
        [] g = "rzz" -> << <<y, <<IF eq THEN MInv(h) ELSE h>> >> >>

ApplyPP(st, g, p, b, c) ==
  LET h == Half(p[1])
      R(y) == RowPP(g, h, b, c, y)
  IN  ApplyRows(st, R, IF g = "rzz" THEN 0 ELSE 2)

---------------------------------------------------------------------------
(* Pauli strings: w is a sequence of <<letter, qubit>> on distinct qubits.  *)
(* P maps |x> to |x with the X and Y qubits flipped>; entry <y|P|x> = z^PPh *)
PFlip(w, y) == FoldLeft(LAMBDA acc, e : IF e[1] \in {"X", "Y"} THEN Flip(acc, e[2]) ELSE acc, y, w)
PPh(w, y) == FoldLeft(LAMBDA acc, e :
               acc + (IF e[1] = "Z" THEN (IF Bit(y, e[2]) = 1 THEN 8 ELSE 0)
                      ELSE IF e[1] = "Y" THEN (IF Bit(y, e[2]) = 1 THEN 4 ELSE 12) ELSE 0), 0, w)
ApplyPauli(st, w) == LET R(y) == << <<PFlip(w, y), Mono(0, PPh(w, y))>> >> IN ApplyRows(st, R, 0)
IsDiagP(w) == \A i \in 1..Len(w) : w[i][1] \notin {"X", "Y"}
\* exp(-i theta/2 P) = cos - i sin P
ApplyPExp(st, p, w) ==
  LET h == Half(p)
      ms == MISin2(h)
      RD(y) == << <<y, <<IF PPh(w, y) % 16 = 0 THEN MInv(h) ELSE h>> >> >>
      RN(y) == << <<y, Cos2(h)>>, <<PFlip(w, y), [i \in 1..Len(ms) |-> MI(ms[i], PPh(w, y))]>> >>
  IN  IF IsDiagP(w) THEN ApplyRows(st, RD, 0) ELSE ApplyRows(st, RN, 2)
PauliOps == {"pauli", "pexp"}

---------------------------------------------------------------------------
\* one gate on concrete qubits
ApplyGate(st, g, p, q) ==
  CASE g \in OneQ  -> ApplyOne(st, M1(g, p), q[1])
    [] g \in CtrlQ -> ApplyCtrl(st, MC(g, p), <<q[1]>>, q[2])
    [] g \in PairQ -> ApplyPP(st, g, p, q[1], q[2])
    [] g = "swap"  -> ApplySwap(st, <<>>, q[1], q[2])
    [] g = "cswap" -> ApplySwap(st, <<q[1]>>, q[2], q[3])
    [] g = "ccx"   -> ApplyCtrl(st, MX, <<q[1], q[2]>>, q[3])
    [] g = "ccz"   -> ApplyCtrl(st, MZ, <<q[1], q[2]>>, q[3])

\* [ok, q |-> sequence of qubit tuples] for an operation on n qubits
OpTargets(op, n) ==
  LET g == Alias(op.g) IN
  IF g \in PauliOps THEN (IF \A i \in 1..Len(op.t.v) : op.t.v[i][2] \in 0..(n - 1) THEN Good(<<op.t.v>>) ELSE Err)
  ELSE IF g \in OneQ \cup MeasQ
    THEN LET r == Resolve(op.t, n) IN IF r.ok THEN Good([i \in 1..Len(r.q) |-> <<r.q[i]>>]) ELSE Err
  ELSE IF g \in TwoQ THEN ResolvePairs(op.t, n)
  ELSE IF g \in ThreeQ THEN ResolveTriple(op.t, n)
  ELSE Err

ApplyOp(st, op, n) ==
  LET r == OpTargets(op, n)
      g == Alias(op.g)
  IN  IF g = "pauli" THEN ApplyPauli(st, op.t.v)
      ELSE IF g = "pexp" THEN ApplyPExp(st, op.p[1], op.t.v)
      ELSE FoldLeft(LAMBDA acc, q : TLCEval(ApplyGate(acc, g, op.p, q)), st, r.q)

ApplyOps(st, ops, n) == FoldLeft(LAMBDA acc, op : TLCEval(ApplyOp(acc, op, n)), st, ops)
OpsOK(ops, n) == \A i \in 1..Len(ops) : OpTargets(ops[i], n).ok

---------------------------------------------------------------------------
(* inverses: what dagger() means for each gate.  A two-qubit operation on    *)
(* several pairs is inverted pair by pair from the last to the first.        *)
RevT(t) == IF t.k = "rev" THEN t.v ELSE [k |-> "rev", v |-> t]
DaggerOp(op0) ==
  LET op == IF Alias(op0.g) \in TwoQ THEN [op0 EXCEPT !.t = RevT(op0.t)] ELSE op0
      g == Alias(op.g)
      neg1 == <<PNegA(op.p[1])>>
  IN
  CASE g = "t" -> [op EXCEPT !.g = "tdg"] [] g = "tdg" -> [op EXCEPT !.g = "t"]
    [] g = "s" -> [op EXCEPT !.g = "sdg"] [] g = "sdg" -> [op EXCEPT !.g = "s"]
    [] NParams(g) = 1 -> [op EXCEPT !.p = neg1]
    [] g = "u2"  -> [op EXCEPT !.g = "u3",  !.p = <<<<0,-2>>, PNegA(op.p[2]), PNegA(op.p[1])>>]
    [] g = "cu2" -> [op EXCEPT !.g = "cu3", !.p = <<<<0,-2>>, PNegA(op.p[2]), PNegA(op.p[1])>>]
    [] g \in {"u3","cu3"} -> [op EXCEPT !.p = <<PNegA(op.p[1]), PNegA(op.p[3]), PNegA(op.p[2])>>]
    [] OTHER -> op
DaggerOps(ops) == [i \in 1..Len(ops) |-> DaggerOp(ops[Len(ops) + 1 - i])]

---------------------------------------------------------------------------
(* decompositions used by backends without a native action.  Parameters are *)
(* halved, so for symbolic angles q must be divisible by 4 and c by 2.       *)
Ti(i) == [k |-> "i", v |-> i]
Tp(c, t) == [k |-> "t", v |-> <<Ti(c), Ti(t)>>]
G1(g, p, t) == [g |-> g, p |-> p, t |-> Ti(t)]
G2(g, p, c, t) == [g |-> g, p |-> p, t |-> Tp(c, t)]
HasFallback(g) == g \notin {"x","y","z","h","rx","ry","rz","u3","cx","cz","ccz","measure","reset"}
FallbackOn(g, p, q) ==
  LET h1 == <<PHalfA(p[1])>>
      nh1 == <<PNegA(PHalfA(p[1]))>>
      c == q[1]
      t == q[2]
  IN
  CASE g = "i" -> <<>>
    [] g = "phase" -> <<G1("rz", p, c)>>
    [] g = "t" -> <<G1("phase", <<<<0,1>>>>, c)>>
    [] g = "tdg" -> <<G1("phase", <<<<0,-1>>>>, c)>>
    [] g = "s" -> <<G1("phase", <<<<0,2>>>>, c)>>
    [] g = "sdg" -> <<G1("phase", <<<<0,-2>>>>, c)>>
    [] g = "u1" -> <<G1("u3", <<<<0,0>>, <<0,0>>, p[1]>>, c)>>
    [] g = "u2" -> <<G1("u3", <<<<0,2>>, p[1], p[2]>>, c)>>
    [] g = "cy" -> <<G1("sdg", <<>>, t), G2("cx", <<>>, c, t), G1("s", <<>>, t)>>
    [] g = "ch" -> <<G1("ry", <<<<0,1>>>>, t), G2("cx", <<>>, c, t), G1("ry", <<<<0,-1>>>>, t)>>
    [] g = "crx" -> <<G1("rx", h1, t), G2("cz", <<>>, c, t), G1("rx", nh1, t), G2("cz", <<>>, c, t)>>
    [] g = "cry" -> <<G1("ry", h1, t), G2("cx", <<>>, c, t), G1("ry", nh1, t), G2("cx", <<>>, c, t)>>
    [] g = "crz" -> <<G1("rz", h1, t), G2("cx", <<>>, c, t), G1("rz", nh1, t), G2("cx", <<>>, c, t)>>
    [] g = "cphase" -> <<G2("crz", p, c, t), G1("phase", h1, c)>>
    [] g = "rxx" -> <<G1("h", <<>>, c), G1("h", <<>>, t), G2("rzz", p, c, t), G1("h", <<>>, c), G1("h", <<>>, t)>>
    [] g = "ryy" -> <<G1("rx", <<<<0,-2>>>>, c), G1("rx", <<<<0,-2>>>>, t), G2("rzz", p, c, t),
                      G1("rx", <<<<0,2>>>>, c), G1("rx", <<<<0,2>>>>, t)>>
    [] g = "rzz" -> <<G2("cx", <<>>, c, t), G1("rz", p, t), G2("cx", <<>>, c, t)>>
    [] g = "swap" -> <<G2("cx", <<>>, c, t), G2("cx", <<>>, t, c), G2("cx", <<>>, c, t)>>
    [] g = "cu1" -> <<G1("u1", h1, c), G2("cx", <<>>, c, t), G1("u1", nh1, t), G2("cx", <<>>, c, t), G1("u1", h1, t)>>
    [] g = "cu2" -> <<G2("cu3", <<<<0,2>>, p[1], p[2]>>, c, t)>>
    [] g = "cu3" -> <<G1("u1", <<PHalfA(PAddA(p[3], PNegA(p[2])))>>, t), G2("cx", <<>>, c, t),
                      G1("u3", <<PNegA(PHalfA(p[1])), <<0,0>>, PNegA(PHalfA(PAddA(p[2], p[3])))>>, t),
                      G2("cx", <<>>, c, t), G1("u3", <<PHalfA(p[1]), p[2], <<0,0>>>>, t)>>
    [] g = "ccx" -> LET d == q[3] IN
                    <<G1("h", <<>>, d), G2("cx", <<>>, t, d), G1("tdg", <<>>, d), G2("cx", <<>>, c, d),
                      G1("t", <<>>, d), G2("cx", <<>>, t, d), G1("tdg", <<>>, d), G2("cx", <<>>, c, d),
                      G1("t", <<>>, t), G1("t", <<>>, d), G1("h", <<>>, d), G2("cx", <<>>, c, t),
                      G1("t", <<>>, c), G1("tdg", <<>>, t), G2("cx", <<>>, c, t)>>
    [] g = "cswap" -> <<G2("cx", <<>>, q[3], q[2]),
                        [g |-> "ccx", p |-> <<>>, t |-> [k |-> "t", v |-> <<Ti(q[1]), Ti(q[2]), Ti(q[3])>>]],
                        G2("cx", <<>>, q[3], q[2])>>

\* flatten to gates in Native, as a backend with only these actions sees it
RECURSIVE Flatten(_, _, _)
Flatten(ops, n, Native) ==
  FlattenSeq([i \in 1..Len(ops) |->
    LET g == Alias(ops[i].g) IN
    IF g \in Native THEN <<ops[i]>>
    ELSE FlattenSeq([j \in 1..Len(OpTargets(ops[i], n).q) |->
           Flatten(FallbackOn(g, ops[i].p, OpTargets(ops[i], n).q[j]), n, Native)])])

---------------------------------------------------------------------------
(* qelib1.inc: what an exported line means.  U(th,ph,la) has a real upper   *)
(* left corner; only relative phases matter except under control.           *)
QasmNative == {"id","x","y","z","h","t","tdg","s","sdg","rx","ry","rz","u1","u2","u3",
               "cz","cx","cy","ch","swap","crx","cry","crz","cu1","cu2","cu3","rxx","rzz","ccx","cswap","measure","reset"}
\* returns operations of this module's gate set
QasmLine(g, p, q) ==
  CASE g = "id" -> <<>>
    [] g = "u1" -> <<G1("phase", p, q[1])>>
    [] g = "u2" -> <<G1("u2", p, q[1])>>
    [] g = "u3" -> <<G1("u3", p, q[1])>>
    [] g = "cu1" -> <<G2("cphase", p, q[1], q[2])>>
    [] g \in {"cu2","cu3"} -> \* cu3 as published with OpenQASM 2.0 (no phase on the control); cu2: see DESIGN
         <<G2(g, p, q[1], q[2])>>
    [] g \in {"cz","cx","cy","ch","swap","crx","cry","crz","rxx","rzz"} -> <<G2(g, p, q[1], q[2])>>
    [] g \in {"ccx","cswap"} -> <<[g |-> g, p |-> <<>>, t |-> [k |-> "t", v |-> <<Ti(q[1]), Ti(q[2]), Ti(q[3])>>]]>>
    [] OTHER -> <<G1(g, p, q[1])>>
QasmOps(lines) == FlattenSeq([i \in 1..Len(lines) |-> QasmLine(lines[i].g, lines[i].p, lines[i].q)])
=============================================================================
