------------------------------ MODULE GateLib ------------------------------
(***************************************************************************)
(* The gate library, exactly.  A gate is a tuple whose first component is  *)
(* its name; angles are given by integers: p, q stand for the angle with   *)
(* tan = p/q (of theta/2 for rotations, of theta for XX and evolutions);   *)
(* w = <<a, b>> with integer |w| = h stands for the phase e^{i phi} = w/h.  *)
(***************************************************************************)
EXTENDS Gauss

R1(x) == <<x, 0>>
I1(x) == <<0, x>>

RxM(p, q) == << <<R1(q), I1(-p)>>, <<I1(-p), R1(q)>> >>
RyM(p, q) == << <<R1(q), R1(-p)>>, <<R1(p), R1(q)>> >>
RzM(p, q) == << << <<q, -p>>, Zero>>, <<Zero, <<q, p>> >> >>
\* rotation by theta about cos(phi) X + sin(phi) Y
RphiM(p, q, a, b, h) ==
  << << R1(q * h), Mul(I1(-p), <<a, -b>>) >>,
     << Mul(I1(-p), <<a, b>>), R1(q * h) >> >>
\* Rz(alpha) Ry(beta) Rz(gamma); u, v = phases of alpha/2, gamma/2
RxyzM(u, p, q, v) ==
  << << Mul(R1(q), Mul(Conj(u), Conj(v))), Mul(R1(-p), Mul(Conj(u), v)) >>,
     << Mul(R1(p), Mul(u, Conj(v))),       Mul(R1(q), Mul(u, v)) >> >>

XM == << <<Zero, One>>, <<One, Zero>> >>
YM == << <<Zero, I1(-1)>>, <<I1(1), Zero>> >>
ZM == << <<One, Zero>>, <<Zero, R1(-1)>> >>
HM == << <<One, One>>, <<One, R1(-1)>> >>
PauliM(c) == CASE c = 0 -> IdM(2) [] c = 1 -> XM [] c = 2 -> YM [] c = 3 -> ZM

\* CNOT and CCNOT: flip the last qubit when all others are 1
CtrlM(k) == LET d == Pow2(k) IN
  Mat(d, LAMBDA r, c : IF r <= d - 2 THEN (IF r = c THEN One ELSE Zero)
                       ELSE (IF r + c = 2 * d - 1 THEN One ELSE Zero))

\* cos I - i sin XX
XXM(p, q) == Mat(4, LAMBDA r, c : IF r = c THEN R1(q) ELSE IF r + c = 5 THEN I1(-p) ELSE Zero)

RECURSIVE GmsFold(_, _, _, _, _, _)
GmsFold(n, i, j, p, q, M) ==      \* XX on all pairs i < j
  IF i >= n - 1 THEN M
  ELSE IF j >= n THEN GmsFold(n, i + 1, i + 2, p, q, M)
  ELSE GmsFold(n, i, j + 1, p, q, LeftApply(XXM(p, q), <<i, j>>, n, M))
GmsM(n, p, q) == GmsFold(n, 0, 1, p, q, IdM(Pow2(n)))

\* Three-qubit phase-flip syndrome matrix: rows of signs
QeccSigns == << <<1, 1, 1, 1, 1, 1, 1, 1>>,
                <<1,-1,-1, 1,-1, 1, 1,-1>>,
                <<1, 1,-1,-1, 1, 1,-1,-1>>,
                <<1,-1, 1,-1,-1, 1,-1, 1>>,
                <<1, 1, 1, 1,-1,-1,-1,-1>>,
                <<1,-1,-1, 1, 1,-1,-1, 1>>,
                <<1,-1, 1,-1, 1,-1, 1,-1>>,
                <<1, 1,-1,-1,-1,-1, 1, 1>> >>
QeccM == Mat(8, LAMBDA r, c : R1(QeccSigns[r][c]))

\* tensor product of Paulis, ps a tuple over 0..3 (I, X, Y, Z)
RECURSIVE PauliStr(_, _)
PauliStr(ps, k) == IF k = 1 THEN PauliM(ps[1]) ELSE Kron(PauliStr(ps, k - 1), PauliM(ps[k]))
PauliStrM(ps) == PauliStr(ps, Len(ps))
LinComb(a, A, b, B) == Mat(Dim(A), LAMBDA r, c : Add(Mul(a, A[r][c]), Mul(b, B[r][c])))
\* exp(i t c P) for a Pauli string P with tan(c t) = p/q
EvolM(ps, p, q) == LinComb(R1(q), IdM(Pow2(Len(ps))), I1(p), PauliStrM(ps))

\* Clifford gates without symmetry: all histories over them stay bounded
K1M == MMul(RzM(1, 1), HM)
K2M == MMul(CtrlM(2), MMul(Kron(RzM(1, 1), HM), MMul(XXM(1, 1), Kron(RxM(1, 1), K1M))))
K3M == MMul(Embed(K2M, <<0, 2>>, 3), MMul(Embed(CtrlM(2), <<1, 0>>, 3), Embed(K2M, <<2, 1>>, 3)))

\* opaque gates with no symmetry at all: every placement and factor order is visible
Opaque1(s) == MMul(RphiM(s, 2, 3, 4, 5), MMul(RzM(1, 3), RxM(2, 1)))
Opaque2(s) == MMul(CtrlM(2), MMul(Kron(RxM(1, 2), RzM(s, 2)), MMul(XXM(1, 1), Kron(RyM(1, 3), HM))))
Opaque3(s) == MMul(Embed(Opaque2(s), <<1, 2>>, 3), MMul(CtrlM(3), Embed(Opaque2(1), <<0, 2>>, 3)))

GateMat(g) ==
  CASE g[1] = "I"    -> IdM(Pow2(g[2]))
    [] g[1] = "rx"   -> RxM(g[2], g[3])
    [] g[1] = "ry"   -> RyM(g[2], g[3])
    [] g[1] = "rz"   -> RzM(g[2], g[3])
    [] g[1] = "rphi" -> RphiM(g[2], g[3], g[4], g[5], g[6])
    [] g[1] = "rxyz" -> RxyzM(<<g[2], g[3]>>, g[4], g[5], <<g[6], g[7]>>)
    [] g[1] = "h"    -> HM
    [] g[1] = "x"    -> XM
    [] g[1] = "y"    -> YM
    [] g[1] = "z"    -> ZM
    [] g[1] = "cnot" -> CtrlM(2)
    [] g[1] = "ccnot" -> CtrlM(3)
    [] g[1] = "qecc" -> QeccM
    [] g[1] = "xx"   -> XXM(g[2], g[3])
    [] g[1] = "gms"  -> GmsM(g[2], g[3], g[4])
    [] g[1] = "k1"   -> Canon(K1M)
    [] g[1] = "k2"   -> Canon(K2M)
    [] g[1] = "k3"   -> Canon(K3M)
    [] g[1] = "o1"   -> Opaque1(g[2])
    [] g[1] = "o2"   -> Opaque2(g[2])
    [] g[1] = "o3"   -> Opaque3(g[2])

\* number of qubits of a gate
GateWidth(g) ==
  CASE g[1] \in {"rx", "ry", "rz", "rphi", "rxyz", "h", "x", "y", "z", "o1", "k1"} -> 1
    [] g[1] \in {"cnot", "xx", "o2", "k2"} -> 2
    [] g[1] \in {"ccnot", "qecc", "o3", "k3"} -> 3
    [] g[1] \in {"I", "gms"} -> g[2]
=============================================================================
