------------------------------ MODULE PauliMat ------------------------------
(***************************************************************************)
(* C11.  A case of IN is a sum of written-out terms                          *)
(*   [t |-> sequence of [c |-> <<re, im, e>>, ops |-> sequence of <<l, q>>]] *)
(* on NQ qubits.  The machine multiplies the factors one by one, adds the    *)
(* terms, and writes the non-zero matrix entries row by row - of all rows,   *)
(* or of the rows that a case asks for in a field "rows".                    *)
(***************************************************************************)
EXTENDS PauliAlg, Json, IOUtils, CSV
Cases == JsonDeserialize(IOEnv.IN)
VARIABLES id, i, j, acc, term, row, rows
vars == <<id, i, j, acc, term, row, rows>>
Terms == Cases[id].t
Wanted == IF "rows" \in DOMAIN Cases[id] THEN Cases[id].rows ELSE [x \in 1..Pow2(NQ) |-> x - 1]
Coeff(c) == Scalar(c[1], c[2], c[3])
Init == id \in 1..Len(Cases) /\ i = 1 /\ j = 0 /\ acc = Zero /\ term = Zero /\ row = 0 /\ rows = <<>>
StartTerm == i <= Len(Terms) /\ j = 0 /\ term' = Coeff(Terms[i].c) /\ j' = 1 /\ UNCHANGED <<id, i, acc, row, rows>>
Factor == i <= Len(Terms) /\ j >= 1 /\ j <= Len(Terms[i].ops)
          /\ LET f == Terms[i].ops[j] IN term' = OMul(term, IF f[1] = 0 THEN One ELSE Letter(f[1], f[2]))
          /\ j' = j + 1 /\ UNCHANGED <<id, i, acc, row, rows>>
EndTerm == i <= Len(Terms) /\ j = Len(Terms[i].ops) + 1
           /\ acc' = OAdd(acc, term) /\ i' = i + 1 /\ j' = 0 /\ UNCHANGED <<id, term, row, rows>>
RowOut(r) == LET cs == SetToSeq({y \in DOMAIN r : r[y] # CZero}) IN [k \in 1..Len(cs) |-> <<cs[k], r[cs[k]][1], r[cs[k]][2]>>]
DoRow == i > Len(Terms) /\ row < Len(Wanted) /\ rows' = Append(rows, RowOut(Row(acc, Wanted[row + 1]))) /\ row' = row + 1
         /\ UNCHANGED <<id, i, j, acc, term>>
Finish == i > Len(Terms) /\ row = Len(Wanted) /\ row' = row + 1
          /\ CSVWrite("%1$s", <<ToJson([id |-> id, e |-> acc.e, m |-> OpOut(acc), rows |-> rows])>>, IOEnv.OUT \o "." \o ToString(id % 128))
          /\ UNCHANGED <<id, i, j, acc, term, rows>>
Next == StartTerm \/ Factor \/ EndTerm \/ DoRow \/ Finish
Spec == Init /\ [][Next]_vars
\* a Hermitian operator has a Hermitian matrix
HermOK == (row = Pow2(NQ) /\ "rows" \notin DOMAIN Cases[id] /\ IsHermitian(acc)) =>
  \A x \in 1..Pow2(NQ) : \A k \in 1..Len(rows[x]) : \E l \in 1..Len(rows[rows[x][k][1] + 1]) :
     LET q == rows[rows[x][k][1] + 1][l] IN q[1] = x - 1 /\ q[2] = rows[x][k][2] /\ q[3] = -rows[x][k][3]
=============================================================================
