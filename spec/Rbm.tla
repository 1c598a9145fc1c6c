-------------------------------- MODULE Rbm --------------------------------
(***************************************************************************)
(* C25.  Training of a restricted Boltzmann machine with V visible and H      *)
(* hidden units whose weights are a QUBO matrix.  The logistic function is     *)
(* kept symbolic: the hidden probabilities of epoch e are fresh symbols        *)
(* s[e,j] with sg = the argument of the logistic function, and every entry of  *)
(* the matrix is a linear form over the symbols of the epochs so far, with     *)
(* integer coefficients over 2^den (index 1 = the constant).                   *)
(* One epoch with datum v (complemented by fit) and annealing samples X:       *)
(*    s_j  = logistic(Q_jj + sum_i v_i Q_ij)                                    *)
(*    data = diag(v, s) + v_i s_j        model = mean of x_i, x_i x_j over X    *)
(*    Q'   = alpha Q + epsilon (data - model)                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, CSV, IOUtils
CONSTANTS MaxV, MaxH, Epochs
VARIABLES v, h, q, den, e, hist
vars == <<v, h, q, den, e, hist>>
Pick(S) == RandomElement(S)
M == v + h
NSyms == 1 + Epochs * MaxH
Const(c) == TLCEval([k \in 1..NSyms |-> IF k = 1 THEN c ELSE 0])
Sym(ep, j) == 1 + (ep - 1) * MaxH + j            \* j in 1..h
Unit(k) == [x \in 1..NSyms |-> IF x = k THEN 1 ELSE 0]
LAdd(a, b) == [k \in 1..NSyms |-> a[k] + b[k]]
LMul(c, a) == [k \in 1..NSyms |-> c * a[k]]
Zero == Const(0)
LSum(f(_), S) == FoldLeft(LAMBDA acc, x : LAdd(acc, f(x)), Zero, SetToSeq(S))
SumTo(f(_), k) == FoldLeft(LAMBDA acc, x : acc + f(x), 0, [i \in 1..k |-> i])
Pow2(k) == 2^k
Out(m) == [i \in 1..M |-> [j \in 1..M |-> m[i][j]]]

\* initial weights: quarters, upper triangular
Init == /\ v \in 1..MaxV /\ h \in 1..MaxH
        /\ den = 2 /\ e = 0
        /\ q = TLCEval([i \in 1..(v + h) |-> TLCEval([j \in 1..(v + h) |-> IF j >= i THEN TLCEval(Const(Pick(-12..12))) ELSE Zero])])
        /\ hist = <<>>

Arg(x, j) == LAdd(q[v + j][v + j], LSum(LAMBDA i : LMul(x[i], q[i][v + j]), 1..v))
\* data term, a linear form over the symbols (denominator 1)
Data(x, i, j) == CASE i = j /\ i <= v -> Const(x[i])
                   [] i = j /\ i > v -> Unit(Sym(e + 1, i - v))
                   [] i <= v /\ j > v -> LMul(x[i], Unit(Sym(e + 1, j - v)))
                   [] OTHER -> Zero
\* number of samples showing i (i and j)
Model(X, i, j) == CASE i = j -> SumTo(LAMBDA k : X[k][i], Len(X))
                    [] i <= v /\ j > v -> SumTo(LAMBDA k : X[k][i] * X[k][j], Len(X))
                    [] OTHER -> 0
\* alpha = an/2, epsilon = en/4, 2^lg samples
Epoch == /\ e < Epochs
         /\ \E d \in {TLCEval([i \in 1..v |-> Pick({0, 1})])} : \E lg \in {Pick(0..2)} :
            \E X \in {TLCEval([k \in 1..Pow2(lg) |-> TLCEval([i \in 1..M |-> Pick({0, 1})])])} :
            \E an \in {Pick({1, 2, 2, 3})} : \E en \in {Pick({0, 1, 1, 2, 4, -1})} :
            LET x  == [i \in 1..v |-> 1 - d[i]]
                d2 == den + 1 + (IF 2 + lg > den + 1 THEN 2 + lg - den - 1 ELSE 0)   \* new denominator
                up == Pow2(d2 - den - 1)
                ue == Pow2(d2 - 2 - lg)
                new == TLCEval([i \in 1..M |-> [j \in 1..M |->
                          LAdd(LMul(an * up, q[i][j]),
                               LMul(en * ue, LAdd(LMul(Pow2(lg), Data(x, i, j)), Const(0 - Model(X, i, j)))))]])
            IN /\ q' = new /\ den' = d2
               /\ hist' = Append(hist, [d |-> d, x |-> X, an |-> an, en |-> en,
                                        arg |-> [j \in 1..h |-> Arg(x, j)], before |-> Out(q), bden |-> den,
                                        data |-> [i \in 1..M |-> [j \in 1..M |-> Data(x, i, j)]],
                                        model |-> [i \in 1..M |-> [j \in 1..M |-> Model(X, i, j)]],
                                        after |-> Out(new), aden |-> d2])
         /\ e' = e + 1 /\ UNCHANGED <<v, h>>
Finish == e = Epochs /\ e' = e + 1 /\ UNCHANGED <<v, h, q, den, hist>>
          /\ \A i \in 1..Len(hist) : CSVWrite("%1$s", <<ToJson([v |-> v, h |-> h, i |-> i, t |-> hist[i]])>>, IOEnv.OUT)
Next == Epoch \/ Finish
Spec == Init /\ [][Next]_vars

Small(f) == \A k \in 1..NSyms : f[k] \in -100000000..100000000
SmallOK == \A i, j \in 1..M : Small(q[i][j])
\* only symbols of epochs that took place occur
CausalOK == \A i, j \in 1..M : \A k \in 1..NSyms : q[i][j][k] # 0 => k <= 1 + e * MaxH
\* nothing below the diagonal, and couplings within a layer only decay
UpperOK == \A i, j \in 1..M : j < i => q[i][j] = Zero
WithinOK == e > 0 /\ e <= Epochs => LET l == hist[e] IN \A i, j \in 1..M :
     (i < j /\ ((i <= v) = (j <= v))) => LMul(Pow2(l.bden + 1), q[i][j]) = LMul(l.an * Pow2(l.aden), l.before[i][j])
=============================================================================
