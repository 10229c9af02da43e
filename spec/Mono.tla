-------------------------------- MODULE Mono --------------------------------
(***************************************************************************)
(* Monomial unitaries: |x> goes to exp(2 pi i ph[x] / PN) |y[x]>.  X, Y,   *)
(* Z, T, RZ, CNOT, CCNOT, exchanges of qubits, controlled phases and all   *)
(* their products are of this kind.  Arithmetic is that of integers modulo *)
(* PN, so products of thousands of gates, gates of tiny angles and wide    *)
(* systems are exact.  The phase of |0...0> is normalised away.            *)
(* States are numbered from 1; qubit 0 is the most significant one.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
LOCAL INSTANCE SequencesExt

CONSTANT PN      \* phases are multiples of 2 pi / PN (PN divisible by 8)

RECURSIVE MPow(_)
MPow(n) == IF n = 0 THEN 1 ELSE 2 * MPow(n - 1)
MFold(op(_, _), m, es) == FoldLeft(op, m, es)
MonoTo(y, ph) == [y |-> TLCEval(y), ph |-> TLCEval([x \in 1..Len(ph) |-> (ph[x] - ph[1]) % PN])]
MonoId(n) == MonoTo([x \in 1..MPow(n) |-> x], [x \in 1..MPow(n) |-> 0])
\* A after B
MonoMul(A, B) == MonoTo([x \in 1..Len(B.y) |-> A.y[B.y[x]]],
                        [x \in 1..Len(B.y) |-> B.ph[x] + A.ph[B.y[x]]])
MonoBack(y) == [z \in 1..Len(y) |-> CHOOSE x \in 1..Len(y) : y[x] = z]
MonoInv(A) == LET b == TLCEval(MonoBack(A.y)) IN
              MonoTo(b, [z \in 1..Len(b) |-> -A.ph[b[z]]])

\* the bits of state x (from 0) at qubits q of an n-qubit system, as a number
MBit(x, i, n) == (x \div MPow(n - 1 - i)) % 2
RECURSIVE MSub(_, _, _, _)
MSub(x, q, n, j) == IF j = 0 THEN 0 ELSE 2 * MSub(x, q, n, j - 1) + MBit(x, q[j], n)
\* x with these bits replaced by those of v
RECURSIVE MPut(_, _, _, _, _)
MPut(x, q, n, v, j) ==
  IF j = 0 THEN x
  ELSE LET i == q[j]
           b == (v \div MPow(Len(q) - j)) % 2
       IN MPut(x + (b - MBit(x, i, n)) * MPow(n - 1 - i), q, n, v, j - 1)
\* the gate G on qubits q of n, as an operator on the whole system
MonoPlace(G, q, n) ==
  LET Sb == [x \in 1..MPow(n) |-> MSub(x - 1, q, n, Len(q)) + 1] IN
  MonoTo([x \in 1..MPow(n) |-> MPut(x - 1, q, n, G.y[Sb[x]] - 1, Len(q)) + 1],
         [x \in 1..MPow(n) |-> G.ph[Sb[x]]])

\* gates: <<"x">>, <<"rz", k>> (angle 2 pi k / PN), <<"cp", k>>, <<"mono", ys, phs>> ...
MonoGate(g) ==
  CASE g[1] = "x" -> MonoTo(<<2, 1>>, <<0, 0>>)
    [] g[1] = "y" -> MonoTo(<<2, 1>>, <<0, PN \div 2>>)
    [] g[1] = "z" -> MonoTo(<<1, 2>>, <<0, PN \div 2>>)
    [] g[1] = "t" -> MonoTo(<<1, 2>>, <<0, PN \div 8>>)
    [] g[1] = "rz" -> MonoTo(<<1, 2>>, <<0, g[2]>>)
    [] g[1] = "cnot" -> MonoTo(<<1, 2, 4, 3>>, <<0, 0, 0, 0>>)
    [] g[1] = "ccnot" -> MonoTo(<<1, 2, 3, 4, 5, 6, 8, 7>>, <<0, 0, 0, 0, 0, 0, 0, 0>>)
    [] g[1] = "swap" -> MonoTo(<<1, 3, 2, 4>>, <<0, 0, 0, 0>>)
    [] g[1] = "cp" -> MonoTo(<<1, 2, 3, 4>>, <<0, 0, 0, g[2]>>)
    [] g[1] = "mono" -> MonoTo(g[2], g[3])
=============================================================================
