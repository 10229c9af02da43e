-------------------------------- MODULE Fix --------------------------------
(***************************************************************************)
(* Fixed-point arithmetic at scale S for recorded runs whose parameters    *)
(* are arbitrary reals.  A real x is the integer nearest to x * S, a       *)
(* complex number a pair.  Entries of unitaries are at most S, so by       *)
(* Cauchy-Schwarz every partial sum of a row-column product is at most     *)
(* S*S = 4*10^8 and nothing overflows.  Each operation is accurate to      *)
(* about 1/S = 5*10^-5.                                                    *)
(***************************************************************************)
EXTENDS Gauss

S == 20000
Pi == 62832            \* pi * S

\* rounded division by a positive number
RDiv(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -((-a + b \div 2) \div b)
FMul1(a, b) == RDiv(a * b, S)

\* Taylor series on small arguments: |x| <= pi/4
SinT(x) == LET x2 == FMul1(x, x) IN
   FMul1(x, S - RDiv(FMul1(x2, S - RDiv(FMul1(x2, S - RDiv(x2, 42)), 20)), 6))
CosT(x) == LET x2 == FMul1(x, x) IN
   S - RDiv(FMul1(x2, S - RDiv(FMul1(x2, S - RDiv(FMul1(x2, S - RDiv(x2, 56)), 30)), 12)), 2)

\* x = k * pi/2 + rest, |rest| <= pi/4.  pi/2 * S = 31415.9265 = 31416 - 0.0735
QuarterOf(x) == LET h == 31416 IN IF x >= 0 THEN (x + h \div 2) \div h ELSE -((-x + h \div 2) \div h)
RestOf(x) == LET k == QuarterOf(x) IN x - k * 31416 + RDiv(k * 735, 10000)
FCos(x) == LET k == QuarterOf(x) % 4
               r == RestOf(x)
           IN CASE k = 0 -> CosT(r) [] k = 1 -> -SinT(r) [] k = 2 -> -CosT(r) [] k = 3 -> SinT(r)
FSin(x) == LET k == QuarterOf(x) % 4
               r == RestOf(x)
           IN CASE k = 0 -> SinT(r) [] k = 1 -> CosT(r) [] k = 2 -> -SinT(r) [] k = 3 -> -CosT(r)
\* e^{i x}
FCis(x) == <<FCos(x), FSin(x)>>

\* e^{-x} for x >= 0, x in units of 1/S
RECURSIVE FExpNeg(_)
FExpNeg(x) ==
  IF x > 12 * S THEN 0
  ELSE IF x > S \div 2 THEN LET h == FExpNeg(x \div 2) IN
          IF x % 2 = 0 THEN FMul1(h, h) ELSE FMul1(h, FMul1(h, S - 1))
  ELSE S - FMul1(x, S - RDiv(FMul1(x, S - RDiv(FMul1(x, S - RDiv(FMul1(x, S - RDiv(x, 5)), 4)), 3)), 2))

\* integer square root
RECURSIVE ISqrtK(_, _)
ISqrtK(n, g) == LET h == (g + n \div g) \div 2 IN IF h >= g THEN g ELSE ISqrtK(n, h)
ISqrt(n) == IF n < 2 THEN n ELSE ISqrtK(n, IF n >= 1000000 THEN 46340 ELSE 1001)

CMulF(a, b) == <<RDiv(a[1]*b[1] - a[2]*b[2], S), RDiv(a[1]*b[2] + a[2]*b[1], S)>>

FId(d) == Mat(d, LAMBDA r, c : IF r = c THEN <<S, 0>> ELSE Zero)
FMMul(A, B) == Mat(Dim(A), LAMBDA r, c :
     LET z == DotCol(A[r], B, c, Dim(A), Zero) IN <<RDiv(z[1], S), RDiv(z[2], S)>>)
FLeftApply(U, qs, n, M) ==
  LET X == LeftApply(U, qs, n, M) IN
  Mat(Dim(M), LAMBDA r, c : <<RDiv(X[r][c][1], S), RDiv(X[r][c][2], S)>>)
FKron(A, B) ==
  LET db == Dim(B) IN
  Mat(Dim(A) * db, LAMBDA r, c :
        CMulF(A[((r - 1) \div db) + 1][((c - 1) \div db) + 1],
              B[((r - 1) % db) + 1][((c - 1) % db) + 1]))

\* |trace(A^dagger B)| / dim, at scale S
FOverlap(A, B) ==
  LET d == Dim(A)
      z == SumC(LAMBDA k : LET w == SumC(LAMBDA j : Mul(Conj(A[j][k]), B[j][k]), d, Zero)
                           IN <<RDiv(w[1], S), RDiv(w[2], S)>>, d, Zero)
      x == RDiv(z[1], d)
      y == RDiv(z[2], d)
  IN ISqrt(x*x + y*y)

\* a matrix of Gaussian integers (projective) at scale S
\* 10 a / f, rounded, without overflow
Div10(a, f) == IF a >= 0 THEN (a \div f) * 10 + ((a % f) * 10 + f \div 2) \div f
               ELSE -(((-a) \div f) * 10 + (((-a) % f) * 10 + f \div 2) \div f)
GToFix(M) ==
  LET n == Scale2(M)                         \* n <= 20000000, entries <= 1000
      f == IF n <= 2000 THEN ISqrt(n * 1000000) ELSE ISqrt(n * 100) * 100
  IN Mat(Dim(M), LAMBDA r, c : <<Div10(M[r][c][1] * S * 100, f), Div10(M[r][c][2] * S * 100, f)>>)

\* the largest entry of a row-major matrix, as a position
BigPos(A) ==
  LET d == Dim(A) IN
  CHOOSE k \in 1..(d * d) :
    \A j \in 1..(d * d) :
      LET a == A[((k-1) \div d) + 1][((k-1) % d) + 1]
          b == A[((j-1) \div d) + 1][((j-1) % d) + 1]
      IN Norm2(a) >= Norm2(b)

\* equality up to a phase within tol (units 1/S); both at scale S
FSameP(A, B, tol) ==
  /\ Dim(A) = Dim(B)
  /\ LET d  == Dim(A)
         k  == BigPos(A)
         pr == ((k-1) \div d) + 1
         pc == ((k-1) % d) + 1
         a  == A[pr][pc]
         b  == B[pr][pc]
         na == ISqrt(Norm2(a))
         nb == ISqrt(Norm2(b))
     IN /\ IAbs(na - nb) <= tol
        /\ \A r, c \in 1..d :
             LET x == CMulF(a, B[r][c])
                 y == CMulF(b, A[r][c])
             IN IAbs(x[1] - y[1]) <= tol /\ IAbs(x[2] - y[2]) <= tol
=============================================================================
