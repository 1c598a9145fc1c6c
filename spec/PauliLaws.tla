----------------------------- MODULE PauliLaws -----------------------------
(* The algebra of PauliAlg is the matrix algebra, for all pairs of strings. *)
EXTENDS PauliAlg
VARIABLES s, t
Init == s \in Strings /\ t \in Strings
Spec == Init /\ [][FALSE]_<<s, t>>
O(u) == Mk(0, [v \in {u} |-> <<1, 0>>])
Dim == Pow2(NQ)
MatEntry(a, x, y) == LET r == Row(a, x) IN IF y \in DOMAIN r THEN r[y] ELSE CZero
ProductIsMatrixProduct ==
  \A x \in 0..(Dim - 1) : \A y \in 0..(Dim - 1) :
    MatEntry(OMul(O(s), O(t)), x, y) =
      FoldLeft(LAMBDA acc, z : CAdd(acc, CMul(MatEntry(O(s), x, z), MatEntry(O(t), z, y))), CZero, [z \in 1..Dim |-> z - 1])
CommuteIsCommutator == SCommute(s, t) <=> Comm(O(s), O(t)) = Zero
Involution == OMul(O(s), O(s)) = One
Distributive == \A l \in 1..3 : LET c == Letter(l, 0) a == OAdd(O(s), Scalar(0, 1, 1)) IN
  OMul(a, OAdd(O(t), c)) = OAdd(OMul(a, O(t)), OMul(a, c))
Associative == \A l \in 1..3 : LET c == Letter(l, NQ - 1) IN OMul(OMul(O(s), O(t)), c) = OMul(O(s), OMul(O(t), c))
=============================================================================
