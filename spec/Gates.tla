------------------------------- MODULE Gates -------------------------------
(***************************************************************************)
(* The library of named gates on a grid of exact angles, and the laws that *)
(* pin the matrices of GateLib down independently of their entries.        *)
(***************************************************************************)
EXTENDS GateLib, FiniteSets, Json

CONSTANTS PQ,        \* tuple of <<p, q>>: angle with tangent p / q
          PH,        \* tuple of <<a, b, h>>: phase (a + i b) / h
          GmsN,      \* sizes of GMS
          GmsPQ

VARIABLE g
One_(name) == {<<name, PQ[k][1], PQ[k][2]>> : k \in 1..Len(PQ)}
All == One_("rx") \cup One_("ry") \cup One_("rz") \cup One_("xx")
       \cup {<<"rphi", PQ[k][1], PQ[k][2], PH[j][1], PH[j][2], PH[j][3]>> : k \in 1..Len(PQ), j \in 1..Len(PH)}
       \cup {<<"rxyz", PH[i][1], PH[i][2], PQ[k][1], PQ[k][2], PH[j][1], PH[j][2]>> :
               k \in 1..Len(PQ), i \in 1..Len(PH), j \in 1..Len(PH)}
       \cup {<<n>> : n \in {"h", "x", "y", "z", "cnot", "ccnot", "qecc"}}
       \cup {<<"gms", n, GmsPQ[k][1], GmsPQ[k][2]>> : n \in GmsN, k \in 1..Len(GmsPQ)}
Init == g \in All
Next == UNCHANGED g
Spec == Init /\ [][Next]_g

Small(x) == x \in -60..60
SmallG == \A k \in 2..Len(g) : Small(g[k])
M == GateMat(g)
Tell == PrintT("@@" \o ToJson([g |-> g, m |-> IF SmallG THEN Canon(M) ELSE M]))
Unitary_ == SmallG => IsUnitaryP(M)
Width_ == Dim(M) = Pow2(GateWidth(g))
\* evolutions: U = exp(-i theta/2 A) satisfies these with A a Pauli
Generated ==
  SmallG => CASE g[1] = "rx" -> M = LinComb(R1(g[3]), IdM(2), I1(-g[2]), XM)
    [] g[1] = "ry" -> M = LinComb(R1(g[3]), IdM(2), I1(-g[2]), YM)
    [] g[1] = "rz" -> M = LinComb(R1(g[3]), IdM(2), I1(-g[2]), ZM)
    [] g[1] = "xx" -> M = LinComb(R1(g[3]), IdM(4), I1(-g[2]), Kron(XM, XM))
    [] g[1] = "rphi" -> M = LinComb(R1(g[3] * g[6]), IdM(2), I1(-g[2]), LinComb(R1(g[4]), XM, R1(g[5]), YM))
    [] g[1] = "rxyz" -> SameP(M, MMul(<< <<Conj(<<g[2], g[3]>>), Zero>>, <<Zero, <<g[2], g[3]>> >> >>,
                              MMul(RyM(g[4], g[5]), << <<Conj(<<g[6], g[7]>>), Zero>>, <<Zero, <<g[6], g[7]>> >> >>)))
    [] OTHER -> TRUE
\* angles add: tan(a + b) = (p s + q r) / (q s - p r)
Adds ==
  SmallG /\ g[1] \in {"rx", "ry", "rz", "xx"} =>
    \A k \in 1..Len(PQ) : Small(PQ[k][1]) /\ Small(PQ[k][2]) =>
      LET h == <<g[1], PQ[k][1], PQ[k][2]>>
          s == <<g[1], g[2] * h[3] + g[3] * h[2], g[3] * h[3] - g[2] * h[2]>>
      IN SameP(MMul(M, GateMat(h)), GateMat(s))
\* textbook actions
SwapM == Embed(IdM(4), <<1, 0>>, 2)
Textbook ==
  CASE g[1] = "h" -> SameP(MMul(M, MMul(XM, M)), ZM) /\ SameP(MMul(M, MMul(ZM, M)), XM) /\ SameP(MMul(M, M), IdM(2))
    [] g[1] = "x" -> SameP(M, RxM(1, 0)) /\ SameP(MMul(M, MMul(ZM, M)), ZM)
    [] g[1] = "y" -> SameP(M, RyM(1, 0)) /\ SameP(M, MMul(XM, ZM))
    [] g[1] = "z" -> SameP(M, RzM(1, 0))
    [] g[1] = "cnot" -> \A c, t \in 0..1 : M[2 * c + t + 1][2 * c + ((t + c) % 2) + 1] = One
    [] g[1] = "ccnot" -> \A a, b, t \in 0..1 : M[4 * a + 2 * b + t + 1][4 * a + 2 * b + ((t + a * b) % 2) + 1] = One
    \* all pairs, in any order: diagonal in the basis of X
    [] g[1] = "gms" -> \A i \in 0..(g[2] - 2) :
          MMul(M, Embed(XM, <<i>>, g[2])) = MMul(Embed(XM, <<i>>, g[2]), M)
    [] OTHER -> TRUE
\* the GMS gate is the same for every order of its qubits
Gms_Symmetric ==
  g[1] = "gms" /\ g[2] \in 2..3 =>
    \A i, j \in 0..(g[2] - 1) : i # j =>
      LET p == [k \in 1..g[2] |-> IF k - 1 = i THEN j ELSE IF k - 1 = j THEN i ELSE k - 1]
      IN Embed(M, p, g[2]) = M
\* diagonal of GMS in the X basis: each pair contributes -1 or +1
Pop(b, n) == Cardinality({i \in 0..(n - 1) : Bit(b, i, n) = 1})
CPw(z, k) == LET RECURSIVE P(_) P(j) == IF j = 0 THEN One ELSE Mul(z, P(j - 1)) IN
             IF k >= 0 THEN P(k) ELSE Conj(LET RECURSIVE R(_) R(j) == IF j = 0 THEN One ELSE Mul(z, R(j - 1)) IN R(-k))
RECURSIVE HN(_)
HN(n) == IF n = 1 THEN HM ELSE Kron(HN(n - 1), HM)
Gms_Diagonal ==
  g[1] = "gms" /\ g[2] \in 2..4 /\ g[3] = 1 /\ g[4] = 1 =>
    LET n == g[2]
        ones(b) == Pop(b, n)
        pairs(b) == ((n - 2 * ones(b)) * (n - 2 * ones(b)) - n) \div 2     \* sum of z_i z_j over pairs
        base == CHOOSE m \in 0..20 : \A b \in 0..(Pow2(n) - 1) : pairs(b) >= -m
        D == Mat(Pow2(n), LAMBDA r, c : IF r = c THEN CPw(<<0, -1>>, (pairs(r - 1) + base) \div 2) ELSE Zero)
    IN  (\A b \in 0..(Pow2(n) - 1) : (pairs(b) + base) % 2 = 0) =>
        SameP(M, MMul(HN(n), MMul(D, HN(n))))
=============================================================================
