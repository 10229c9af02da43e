------------------------------- MODULE Hamil -------------------------------
(***************************************************************************)
(* Hamiltonians whose evolutions are exact, and the sequences built from   *)
(* them.  A term is a tuple of pairs <<integer a, Pauli string>> whose     *)
(* strings anticommute pairwise, with c = sqrt(sum a^2) an integer; so its *)
(* matrix h has h^2 = c^2, norm c, and                                     *)
(*      exp(i t h) = cos(c t) + i sin(c t) h / c.                          *)
(* Times are multiples of an angle with tangent P / Q.                     *)
(* A Hamiltonian is a tuple of terms; Groups lists tuples of term numbers  *)
(* such that the sum of each group is again of this form and the groups    *)
(* commute.                                                                *)
(***************************************************************************)
EXTENDS GateLib, FiniteSets, TLC

CONSTANTS Terms, Groups,
          P, Q,          \* unit of time: angle with tangent P / Q
          K,             \* time of one step, in units
          N,             \* number of steps
          Kind           \* "trotter", "random", "qdrift", "ideal"

RECURSIVE CPow(_, _)
CPow(z, k) == IF k = 0 THEN One ELSE IF k < 0 THEN Conj(CPow(z, -k))
              ELSE LET w == TLCEval(CPow(z, k - 1)) IN Mul(z, w)
RECURSIVE SumSq(_, _)
SumSq(h, j) == IF j = 0 THEN 0 ELSE SumSq(h, j - 1) + h[j][1] * h[j][1]
Norm(h) == CHOOSE c \in 1..100 : c * c = SumSq(h, Len(h))
Anti(a, b) == Cardinality({i \in 1..Len(a) : a[i] # 0 /\ b[i] # 0 /\ a[i] # b[i]}) % 2 = 1
GoodTerm(h) == \A i, j \in 1..Len(h) : i # j => Anti(h[i][2], h[j][2])
RECURSIVE HMat(_, _)
HMat(h, j) == IF j = 1 THEN LinComb(R1(h[1][1]), PauliStrM(h[1][2]), Zero, PauliStrM(h[1][2]))
              ELSE LinComb(One, HMat(h, j - 1), R1(h[j][1]), PauliStrM(h[j][2]))
HM_(h) == HMat(h, Len(h))

\* evolution under h / c for the angle k, and under h for the time k
EvolUnit(h, k) ==
  LET c == Norm(h)
      z == CPow(<<Q, P>>, k)
  IN Canon(LinComb(R1(z[1] * c), IdM(Pow2(Len(h[1][2]))), I1(z[2]), HM_(h)))
Evol(h, k) == EvolUnit(h, k * Norm(h))

RECURSIVE Concat(_, _)
Concat(g, j) == IF j = 0 THEN <<>> ELSE Concat(g, j - 1) \o Terms[g[j]]
GroupTerm(g) == Concat(g, Len(g))
RECURSIVE TotalK(_, _)
TotalK(j, k) == IF j = 0 THEN IdM(Pow2(Len(Terms[1][1][2])))
                ELSE Canon(MMul(Evol(GroupTerm(Groups[j]), k), TotalK(j - 1, k)))
Total(k) == TotalK(Len(Groups), k)

\* the sum of all terms as a matrix (for the evolution of the whole)
Commuting == \A i, j \in 1..Len(Terms) :
                LET A == HM_(Terms[i])
                    B == HM_(Terms[j])
                IN MMul(A, B) = MMul(B, A)

----------------------------------------------------------------------------
\* the builders as state machines
VARIABLES es,      \* entries so far: term numbers (0: the whole Hamiltonian)
          left     \* terms still to come in this step
vars == <<es, left>>
All == 1..Len(Terms)
Size == IF Kind \in {"trotter", "random"} THEN N * Len(Terms) ELSE N

Init == es = <<>> /\ left = All
Put(t) ==
  /\ Len(es) < Size
  /\ es' = Append(es, t)
  /\ CASE Kind = "trotter" -> t \in left /\ (\A u \in left : t <= u)
       [] Kind = "random" -> t \in left
       [] Kind = "qdrift" -> t \in All
       [] Kind = "ideal" -> t = 0
  /\ left' = IF Kind \in {"trotter", "random"}
             THEN (IF left = {t} THEN All ELSE left \ {t}) ELSE left
Next == \E t \in 0..Len(Terms) : Put(t)
Spec == Init /\ [][Next]_vars

EntryM(t) == IF t = 0 THEN Total(K)
             ELSE IF Kind = "qdrift" THEN EvolUnit(Terms[t], K)
             ELSE Evol(Terms[t], K)
RECURSIVE ProdE(_)
ProdE(j) == IF j = 0 THEN IdM(Pow2(Len(Terms[1][1][2])))
            ELSE Canon(MMul(EntryM(es[j]), ProdE(j - 1)))

Complete == Len(es) = Size
Total_Times ==       \* every term is evolved for the whole time
  Complete /\ Kind \in {"trotter", "random"} =>
    \A t \in All : Cardinality({i \in 1..Len(es) : es[i] = t}) = N
Steps_Whole ==
  Kind \in {"trotter", "random"} =>
    \A s \in 0..((Len(es) \div Len(Terms)) - 1) :
      {es[s * Len(Terms) + i] : i \in 1..Len(Terms)} = All
Exact_When_Commuting ==
  Complete /\ Kind \in {"trotter", "random"} /\ Commuting => SameP(ProdE(Len(es)), Total(N * K))
Ideal_Exact == Complete /\ Kind = "ideal" => SameP(ProdE(Len(es)), Total(N * K))
Terms_Good == /\ \A t \in All : GoodTerm(Terms[t])
              /\ \A j \in 1..Len(Groups) : GoodTerm(GroupTerm(Groups[j]))
              /\ \A i, j \in 1..Len(Groups) :
                   LET A == HM_(GroupTerm(Groups[i]))
                       B == HM_(GroupTerm(Groups[j]))
                   IN MMul(A, B) = MMul(B, A)
\* the evolution is what it should be: a one-parameter group that is the
\* identity at 0, is inverted by -t and commutes with the Hamiltonian
Evol_Group ==
  \A t \in All : \A a, b \in -1..1 :
    SameP(MMul(Evol(Terms[t], a), Evol(Terms[t], b)), Evol(Terms[t], a + b))
Evol_Commutes ==
  \A t \in All : LET U == Evol(Terms[t], K) H == HM_(Terms[t]) IN MMul(U, H) = MMul(H, U)
=============================================================================
