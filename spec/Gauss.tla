------------------------------- MODULE Gauss -------------------------------
(***************************************************************************)
(* Exact arithmetic for unitaries up to global phase and scale.            *)
(*                                                                         *)
(* A complex number is a pair <<re, im>> of integers.  A unitary is         *)
(* represented PROJECTIVELY by a square integer matrix M over Z[i] with    *)
(* M M^dagger = n I for some n > 0: it stands for the unitary M / sqrt(n)  *)
(* up to global phase.  Every gate with rational tan(theta/2), every Pauli *)
(* evolution with rational tan(c t), every Clifford gate, and every        *)
(* embedding, product, inverse and tensor product of them is exact here.   *)
(*                                                                         *)
(* Matrices are tuples of rows, indices start at 1; basis states start at  *)
(* 0.  TLC integers are 32 bit and overflow is an error, never silent.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Zero == <<0, 0>>
One  == <<1, 0>>
Neg(a) == <<-a[1], -a[2]>>
Conj(a) == <<a[1], -a[2]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Mul(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
MulI(a) == <<-a[2], a[1]>>                 \* times the imaginary unit
Norm2(a) == a[1]*a[1] + a[2]*a[2]
IAbs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

Dim(M) == Len(M)

Mat(d, Elem(_, _)) == TLCEval([r \in 1..d |-> TLCEval([c \in 1..d |-> Elem(r, c)])])

IdM(d) == Mat(d, LAMBDA r, c : IF r = c THEN One ELSE Zero)

RECURSIVE DotCol(_, _, _, _, _)
DotCol(row, M, c, k, acc) ==
  IF k = 0 THEN acc
  ELSE DotCol(row, M, c, k - 1, Add(acc, Mul(row[k], M[k][c])))

MMul(A, B) == Mat(Dim(A), LAMBDA r, c : DotCol(A[r], B, c, Dim(A), Zero))
Dagger(A) == Mat(Dim(A), LAMBDA r, c : Conj(A[c][r]))
Kron(A, B) ==
  LET db == Dim(B) IN
  Mat(Dim(A) * db, LAMBDA r, c :
        Mul(A[((r - 1) \div db) + 1][((c - 1) \div db) + 1],
            B[((r - 1) % db) + 1][((c - 1) % db) + 1]))

RECURSIVE SumC(_, _, _)
SumC(Elem(_), k, acc) == IF k = 0 THEN acc ELSE SumC(Elem, k - 1, Add(acc, Elem(k)))
Trace(A) == SumC(LAMBDA k : A[k][k], Dim(A), Zero)

\* n with M M^dagger = n I  (read off the first row)
Scale2(M) == SumC(LAMBDA k : <<Norm2(M[1][k]), 0>>, Dim(M), Zero)[1]

\* M is projectively unitary
IsUnitaryP(M) ==
  LET n == Scale2(M)
      P == MMul(M, Dagger(M))
  IN  /\ n > 0
      /\ \A r, c \in 1..Dim(M) : P[r][c] = IF r = c THEN <<n, 0>> ELSE Zero

\* trace(A^dagger B), the (unscaled) overlap
Overlap(A, B) ==
  SumC(LAMBDA k : SumC(LAMBDA j : Mul(Conj(A[j][k]), B[j][k]), Dim(A), Zero), Dim(A), Zero)

\* Equality up to a non-zero factor: all 2x2 cross products with one pivot agree.
FirstNZ(M) ==
  LET d == Dim(M) IN CHOOSE k \in 1..(d*d) :
        /\ M[((k-1) \div d) + 1][((k-1) % d) + 1] # Zero
        /\ \A j \in 1..(k-1) : M[((j-1) \div d) + 1][((j-1) % d) + 1] = Zero
SameP(A, B) ==
  /\ Dim(A) = Dim(B)
  /\ LET d == Dim(A)
         k == FirstNZ(A)
         pr == ((k-1) \div d) + 1
         pc == ((k-1) % d) + 1
     IN  /\ B[pr][pc] # Zero
         /\ \A r, c \in 1..d : Mul(A[pr][pc], B[r][c]) = Mul(B[pr][pc], A[r][c])

(***************************************************************************)
(* Canonical representative: divide by the integer content and by (1+i)    *)
(* while possible, and rotate by a power of i so that the first non-zero   *)
(* entry has re > 0, im >= 0.  For Clifford gates this makes projective    *)
(* equality plain equality and keeps all numbers bounded.                  *)
(***************************************************************************)
RECURSIVE RowGcd(_, _, _)
RowGcd(row, k, g) == IF k = 0 \/ g = 1 THEN g
                     ELSE RowGcd(row, k - 1, Gcd(Gcd(g, IAbs(row[k][1])), IAbs(row[k][2])))
RECURSIVE MatGcd(_, _, _)
MatGcd(M, r, g) == IF r = 0 \/ g = 1 THEN g ELSE MatGcd(M, r - 1, RowGcd(M[r], Dim(M), g))

DivAll(M, g) == Mat(Dim(M), LAMBDA r, c : <<M[r][c][1] \div g, M[r][c][2] \div g>>)
\* (a+bi)/(1+i) = ((a+b) + (b-a) i)/2
DivOnePlusI(M) == Mat(Dim(M), LAMBDA r, c : <<(M[r][c][1] + M[r][c][2]) \div 2,
                                              (M[r][c][2] - M[r][c][1]) \div 2>>)
RotAll(M) == Mat(Dim(M), LAMBDA r, c : MulI(M[r][c]))

RECURSIVE RotCanon(_, _, _)
RotCanon(M, r, c) ==
  LET x == M[r][c] IN
  IF x[1] > 0 /\ x[2] >= 0 THEN M ELSE RotCanon(RotAll(M), r, c)

Canon(M) ==
  LET d  == Dim(M)
      g  == MatGcd(M, d, 0)
      A  == IF g > 1 THEN DivAll(M, g) ELSE M
      ev == \A r \in 1..d : \A c \in 1..d : (A[r][c][1] + A[r][c][2]) % 2 = 0
      B  == IF ev THEN DivOnePlusI(A) ELSE A
      k  == FirstNZ(B)
  IN  RotCanon(B, ((k-1) \div d) + 1, ((k-1) % d) + 1)

(***************************************************************************)
(* Placement of a gate on an ordered list of qubits (tuple qs of distinct  *)
(* numbers in 0..n-1).  Qubit 0 is the most significant bit of a basis     *)
(* state; the first listed qubit is the gate's most significant one.       *)
(***************************************************************************)
Bit(b, q, n) == (b \div Pow2(n - 1 - q)) % 2

RECURSIVE SubIdx(_, _, _, _)
SubIdx(b, qs, n, k) ==      \* index of the gate's basis state inside b
  IF k = 0 THEN 0 ELSE 2 * SubIdx(b, qs, n, k - 1) + Bit(b, qs[k], n)

RECURSIVE ClearBits(_, _, _, _)
ClearBits(b, qs, n, k) ==   \* b with the listed qubits set to 0
  IF k = 0 THEN b
  ELSE ClearBits(b - Bit(b, qs[k], n) * Pow2(n - 1 - qs[k]), qs, n, k - 1)

RECURSIVE Deposit(_, _, _, _)
Deposit(s, qs, n, k) ==     \* gate basis state s moved to the listed qubits
  IF k = 0 THEN 0
  ELSE Deposit(s \div 2, qs, n, k - 1) + (s % 2) * Pow2(n - 1 - qs[k])

Embed(U, qs, n) ==
  LET k == Len(qs) IN
  Mat(Pow2(n), LAMBDA r, c :
     IF ClearBits(r - 1, qs, n, k) = ClearBits(c - 1, qs, n, k)
     THEN U[SubIdx(r - 1, qs, n, k) + 1][SubIdx(c - 1, qs, n, k) + 1]
     ELSE Zero)

\* Embed(U, qs, n) * M  and  M * Embed(U, qs, n), without building the embedding
LeftApply(U, qs, n, M) ==
  LET k  == Len(qs)
      d  == Pow2(n)
      dk == Pow2(k)
      sub == TLCEval([r \in 1..d |-> SubIdx(r - 1, qs, n, k) + 1])
      src == TLCEval([r \in 1..d |-> TLCEval([s \in 1..dk |->
                ClearBits(r - 1, qs, n, k) + Deposit(s - 1, qs, n, k) + 1])])
  IN Mat(d, LAMBDA r, c :
        SumC(LAMBDA s : Mul(U[sub[r]][s], M[src[r][s]][c]), dk, Zero))
RightApply(M, U, qs, n) ==
  LET k  == Len(qs)
      d  == Pow2(n)
      dk == Pow2(k)
      sub == TLCEval([r \in 1..d |-> SubIdx(r - 1, qs, n, k) + 1])
      src == TLCEval([r \in 1..d |-> TLCEval([s \in 1..dk |->
                ClearBits(r - 1, qs, n, k) + Deposit(s - 1, qs, n, k) + 1])])
  IN Mat(d, LAMBDA r, c :
        SumC(LAMBDA s : Mul(M[r][src[c][s]], U[s][sub[c]]), dk, Zero))
=============================================================================
