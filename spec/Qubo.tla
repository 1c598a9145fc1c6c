-------------------------------- MODULE Qubo --------------------------------
(***************************************************************************)
(* C15.  Problems over 0/1 variables as energy functions.  A history of IN   *)
(* is a sequence of additions to a problem of n variables,                   *)
(*   [n |-> n, ops |-> sequence of [k |-> kind, m |-> 2 * multiplier, ...]]   *)
(* with integer data (four times the numbers used):                          *)
(*   matrix q        x^T q x                                                 *)
(*   poly   t        sum of c * product of variables, t = <<<<c, vars>>, ..>> *)
(*   sel    n, c, l  4 (sum x - c)^2 - 4 c^2 - 2 * (selected of list l)      *)
(*   sqr a, mul a b  (a.x)^2, (a.x)(b.x) (a, b plain integers, times four)    *)
(*   net e           four per edge with both ends selected                   *)
(*   diag d, zeros   the named matrices                                       *)
(*   dbm  l, w       2 sum x + w * (pairs in neighbouring layers)            *)
(* Large problems (n = 10..130) name the assignments of interest in "xs" (bit    *)
(* sequences, the first all zeros); otherwise every assignment is taken.        *)
(* tab[x] is 8 times the energy of assignment x, variable i being bit i.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, Bitwise, TLC, Json, IOUtils, CSV

Cases == JsonDeserialize(IOEnv.IN)
VARIABLES id, j, tab
vars == <<id, j, tab>>
Case == Cases[id]
N == Case.n
Pow2(k) == 2^k
\* the problems of a run are all large (judged on named assignments) or all small
Sampled == IOEnv.BIG = "1"
NX == IF Sampled THEN Len(Case.xs) ELSE Pow2(N)
Xs == 0..(NX - 1)
B(x, i) == IF Sampled THEN Case.xs[x + 1][i + 1] ELSE (x \div Pow2(i)) % 2
SumF(f(_), S) == FoldLeft(LAMBDA acc, e : acc + f(e), 0, SetToSeq(S))
SumTo(f(_), k) == FoldLeft(LAMBDA acc, e : acc + f(e), 0, [i \in 1..k |-> i])
Layer(l, i) == CHOOSE k \in 1..Len(l) : SumTo(LAMBDA a : l[a], k - 1) <= i /\ i < SumTo(LAMBDA a : l[a], k)
ProdB(x, vs) == \A i \in 1..Len(vs) : B(x, vs[i]) = 1
Dot(a, x) == SumTo(LAMBDA i : a[i] * B(x, i - 1), Len(a))

\* four times the energy a single contribution gives to assignment x
Energy(o, x) ==
  CASE o.k = "matrix" -> SumTo(LAMBDA i : SumTo(LAMBDA h : o.q[i][h] * B(x, i - 1) * B(x, h - 1), Len(o.q)), Len(o.q))
    [] o.k = "poly"   -> SumTo(LAMBDA i : IF ProdB(x, o.t[i][2]) THEN o.t[i][1] ELSE 0, Len(o.t))
    [] o.k = "sel"    -> LET s == SumTo(LAMBDA i : B(x, i - 1), o.n) - o.c
                         IN  4 * s * s - 4 * o.c * o.c - 2 * SumTo(LAMBDA i : B(x, o.l[i]), Len(o.l))
    [] o.k = "sqr"    -> 4 * Dot(o.a, x) * Dot(o.a, x)
    [] o.k = "mul"    -> 4 * Dot(o.a, x) * Dot(o.b, x)
    [] o.k = "net"    -> 4 * Cardinality({e \in {{o.e[i][1], o.e[i][2]} : i \in 1..Len(o.e)} : \A v \in e : B(x, v) = 1})
    [] o.k = "diag"   -> SumTo(LAMBDA i : o.a[i] * B(x, i - 1), Len(o.a))
    [] o.k = "zeros"  -> 0
    [] o.k = "dbm"    -> LET d == SumTo(LAMBDA i : o.l[i], Len(o.l)) IN
                         2 * SumTo(LAMBDA i : B(x, i - 1), d) +
                         o.w * Cardinality({p \in (0..(d - 1)) \X (0..(d - 1)) : B(x, p[1]) = 1 /\ B(x, p[2]) = 1 /\ Layer(o.l, p[2]) = Layer(o.l, p[1]) + 1})

Init == id \in 1..Len(Cases) /\ j = 0 /\ tab = [x \in 0..((IF Sampled THEN Len(Cases[id].xs) ELSE Pow2(Cases[id].n)) - 1) |-> 0]
Emit(r) == CSVWrite("%1$s", <<ToJson(r)>>, IOEnv.OUT \o "." \o ToString(id % 128))
\* Opt.add: multiplier times the contribution is added to the problem
Add ==
  /\ j < Len(Case.ops)
  /\ LET o == Case.ops[j + 1] IN tab' = TLCEval([x \in Xs |-> tab[x] + o.m * Energy(o, x)])
  /\ j' = j + 1 /\ UNCHANGED id
  /\ Emit([id |-> id, j |-> j + 1, tab |-> [i \in 1..NX |-> tab'[i - 1]]])
Next == Add
Spec == Init /\ [][Next]_vars

\* ---- facts the conversions rely on --------------------------------------
Bt(i) == Pow2(i)
Q1(i) == tab[Bt(i)] - tab[0]
Q2(i, h) == tab[Bt(i) + Bt(h)] - tab[Bt(i)] - tab[Bt(h)] + tab[0]
\* a problem is determined by its values on assignments with at most two ones
QuadraticOK == Sampled \/ \A x \in Xs :
  tab[x] = tab[0] + SumF(LAMBDA i : B(x, i) * Q1(i), 0..(N - 1)) +
           SumF(LAMBDA p : B(x, p[1]) * B(x, p[2]) * Q2(p[1], p[2]), {p \in (0..(N - 1)) \X (0..(N - 1)) : p[1] < p[2]})
\* Ising form with spins s = 2 b - 1 (four times J, h, offset)
S(x, i) == 2 * B(x, i) - 1
IsingOK == Sampled \/
  LET Q == TLCEval([p \in (0..(N - 1)) \X (0..(N - 1)) |-> IF p[1] = p[2] THEN Q1(p[1]) ELSE Q2(p[1], p[2])])
      H == TLCEval([i \in 0..(N - 1) |-> 2 * Q[<<i, i>>] + SumF(LAMBDA k : Q[<<i, k>>], (0..(N - 1)) \ {i})])
      P == {p \in (0..(N - 1)) \X (0..(N - 1)) : p[1] < p[2]}
      off == SumF(LAMBDA i : H[i], 0..(N - 1)) - SumF(LAMBDA p : Q[p], P)
  IN  \A x \in Xs : 4 * (tab[x] - tab[0]) = off + SumF(LAMBDA i : H[i] * S(x, i), 0..(N - 1)) + SumF(LAMBDA p : Q[p] * S(x, p[1]) * S(x, p[2]), P)
\* Pauli form: b = (1 - Z)/2, so a product of two is (1 - Z_i - Z_k + Z_i Z_k)/4
Z(x, i) == 1 - 2 * B(x, i)
PauliOK == Sampled \/
  LET P == {p \in (0..(N - 1)) \X (0..(N - 1)) : p[1] < p[2]}
  IN  \A x \in Xs : 4 * (tab[x] - tab[0]) = SumF(LAMBDA i : 2 * Q1(i) * (1 - Z(x, i)), 0..(N - 1)) +
        SumF(LAMBDA p : Q2(p[1], p[2]) * (1 - Z(x, p[1]) - Z(x, p[2]) + Z(x, p[1]) * Z(x, p[2])), P)
=============================================================================
