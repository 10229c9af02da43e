------------------------------- MODULE Place -------------------------------
(***************************************************************************)
(* One entry (gate on an ordered list of qubits) and its expansions to     *)
(* systems of several sizes, asked for in any order; asking for a system   *)
(* that is too small is refused and changes nothing.                       *)
(* The expansion is given by two tables over the system's basis states:    *)
(* Sub (the gate's basis state inside) and Rest (all other qubits):        *)
(*     Full[r][c] = IF Rest[r] = Rest[c] THEN U[Sub[r]][Sub[c]] ELSE 0     *)
(***************************************************************************)
EXTENDS GateLib, FiniteSets, Json, Randomization

CONSTANTS Sizes,     \* system sizes (numbers of qubits) to expand to
          Width,     \* number of qubits of the gate
          MaxQ,      \* qubits are 0..MaxQ-1
          Depth,     \* expansions per history
          Pick,      \* 0, or so many lists picked at random
          Emit       \* print histories

All == {s \in [1..Width -> 0..(MaxQ - 1)] : \A i, j \in 1..Width : i # j => s[i] # s[j]}
Lists == TLCEval(IF Pick = 0 THEN All ELSE RandomSubset(Pick, All))
MaxOf(qs) == CHOOSE m \in {qs[i] : i \in 1..Len(qs)} : \A i \in 1..Len(qs) : qs[i] <= m
Fits(qs, n) == MaxOf(qs) < n
SubT(qs, n) == [b \in 1..Pow2(n) |-> SubIdx(b - 1, qs, n, Len(qs))]
RestT(qs, n) == [b \in 1..Pow2(n) |-> ClearBits(b - 1, qs, n, Len(qs))]

VARIABLES qs, hist
vars == <<qs, hist>>
Init == qs \in Lists /\ hist = <<>>
Ask(n) ==
  /\ Len(hist) < Depth
  /\ hist' = Append(hist, [n |-> n, ok |-> Fits(qs, n)])
  /\ UNCHANGED qs
Next == \E n \in Sizes : Ask(n)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
G == CASE Width = 1 -> Opaque1(1) [] Width = 2 -> Opaque2(1) [] Width = 3 -> Opaque3(1)
\* the tables are a bijection from basis states to (sub, rest)
Bijective == hist = <<>> => \A n \in Sizes : Fits(qs, n) =>
  Cardinality({<<SubT(qs, n)[b], RestT(qs, n)[b]>> : b \in 1..Pow2(n)}) = Pow2(n)
\* as the definition of Embed
Tables_Embed == hist = <<>> => \A n \in {m \in Sizes : m <= 3} : Fits(qs, n) =>
  Embed(G, qs, n) = Mat(Pow2(n), LAMBDA r, c :
     IF RestT(qs, n)[r] = RestT(qs, n)[c] THEN G[SubT(qs, n)[r] + 1][SubT(qs, n)[c] + 1] ELSE Zero)
\* a further, less significant qubit is left alone
Grows == hist = <<>> => \A n \in {m \in Sizes : m <= 2} : Fits(qs, n) =>
  Embed(G, qs, n + 1) = Kron(Embed(G, qs, n), IdM(2))
\* the gate on the leading qubits in order is the plain tensor product
Leading == hist = <<>> => \A n \in {m \in Sizes : m <= 3} : Fits(qs, n) /\ qs = [i \in 1..Width |-> i - 1] =>
  Embed(G, qs, n) = IF n = Width THEN G ELSE Kron(G, IdM(Pow2(n - Width)))
\* gates on disjoint qubits commute
Disjoint == hist = <<>> => \A n \in {m \in Sizes : m <= 3} : Fits(qs, n) =>
  \A q \in (0..(n - 1)) \ {qs[i] : i \in 1..Width} :
    LET A == Embed(G, qs, n)
        B == Embed(Opaque1(2), <<q>>, n) IN MMul(A, B) = MMul(B, A)
Tell == Emit /\ Len(hist) = Depth =>
  PrintT("@@" \o ToJson([qs |-> qs, hist |-> hist]))
Tab(n) == IF Fits(qs, n) THEN PrintT("@@" \o ToJson([t |-> n, qs |-> qs, sub |-> SubT(qs, n), rest |-> RestT(qs, n)]))
          ELSE TRUE
Tabs == hist = <<>> => \A n \in Sizes : Tab(n)
=============================================================================
