------------------------------ MODULE GmsWide ------------------------------
(***************************************************************************)
(* Moelmer-Soerensen gates on many qubits.  XX factors on all pairs act on *)
(* the first basis state; as every factor commutes with all bit flips, the *)
(* entry in row a, column b is that of row a XOR b in the first column     *)
(* (checked against the whole matrix for small gates).                     *)
(***************************************************************************)
EXTENDS GateLib, FiniteSets, Json

CONSTANTS Sizes, Angles    \* Angles: tuple of <<p, q>>, tangent p / q of theta

VARIABLES n, a, pairs, col
vars == <<n, a, pairs, col>>
Pairs(m) == {<<i, j>> \in (0..(m - 1)) \X (0..(m - 1)) : i < j}
Flip(b, i, j, m) ==       \* b with bits i and j flipped
  LET f(x, k) == IF Bit(x, k, m) = 1 THEN x - Pow2(m - 1 - k) ELSE x + Pow2(m - 1 - k)
  IN f(f(b, i), j)
Init == /\ n \in Sizes
        /\ a \in 1..Len(Angles)
        /\ pairs = Pairs(n)
        /\ col = [k \in 1..Pow2(n) |-> IF k = 1 THEN One ELSE Zero]
\* cos I - i sin XX on one pair of those left
Step == /\ pairs # {}
        /\ \E x \in {CHOOSE y \in pairs : TRUE} :
             /\ pairs' = pairs \ {x}
             /\ col' = TLCEval([k \in 1..Pow2(n) |->
                  Add(Mul(R1(Angles[a][2]), col[k]),
                      Mul(I1(-Angles[a][1]), col[Flip(k - 1, x[1], x[2], n) + 1]))])
        /\ UNCHANGED <<n, a>>
Next == Step
Spec == Init /\ [][Next]_vars

RECURSIVE SumN(_, _)
SumN(c, k) == IF k = 0 THEN 0 ELSE Norm2(c[k]) + SumN(c, k - 1)
RECURSIVE XorK(_, _, _)
XorK(x, y, k) == IF k = 0 THEN 0 ELSE ((x + y) % 2) + 2 * XorK(x \div 2, y \div 2, k - 1)
\* normed at all times: every factor multiplies the norm by p^2 + q^2
Pw(x, k) == LET RECURSIVE P(_) P(j) == IF j = 0 THEN 1 ELSE x * P(j - 1) IN P(k)
Normed == (n <= 4 \/ Angles[a] = <<1, 1>>) =>
  SumN(col, Pow2(n)) = Pw(Angles[a][1] * Angles[a][1] + Angles[a][2] * Angles[a][2],
                          Cardinality(Pairs(n)) - Cardinality(pairs))
\* only an even number of qubits flips
Even(k) == LET RECURSIVE C(_, _) C(x, m) == IF m = 0 THEN 0 ELSE (x % 2) + C(x \div 2, m - 1) IN C(k, n) % 2 = 0
Parity == \A k \in 1..Pow2(n) : ~Even(k - 1) => col[k] = Zero
Whole == pairs = {} /\ n <= 4 =>
  LET M == GmsM(n, Angles[a][1], Angles[a][2]) IN
  \A r, c \in 1..Pow2(n) : M[r][c] = col[XorK(r - 1, c - 1, n) + 1]
Tell == pairs = {} => PrintT("@@" \o ToJson([n |-> n, p |-> Angles[a][1], q |-> Angles[a][2], col |-> col]))
=============================================================================
