------------------------------ MODULE GateFix ------------------------------
(***************************************************************************)
(* Parameterised gates at arbitrary real parameters, in fixed point.       *)
(***************************************************************************)
EXTENDS Fix, GateLib

FNeg(z) == <<-z[1], -z[2]>>
FScale(x, z) == <<FMul1(x, z[1]), FMul1(x, z[2])>>
Half(x) == RDiv(x, 2)

FRx(t) == LET c == FCos(Half(t)) s == FSin(Half(t)) IN
          << <<R1(c), I1(-s)>>, <<I1(-s), R1(c)>> >>
FRy(t) == LET c == FCos(Half(t)) s == FSin(Half(t)) IN
          << <<R1(c), R1(-s)>>, <<R1(s), R1(c)>> >>
FRz(t) == << <<FCis(-Half(t)), Zero>>, <<Zero, FCis(Half(t))>> >>
FRphi(t, f) == LET c == FCos(Half(t)) s == FSin(Half(t)) IN
          << <<R1(c), FScale(s, MulI(FNeg(FCis(-f))))>>,
             <<FScale(s, MulI(FNeg(FCis(f)))), R1(c)>> >>
FRxyz(a, b, g) == FMMul(FRz(a), FMMul(FRy(b), FRz(g)))
FXX(t) == LET c == FCos(t) s == FSin(t) IN
          Mat(4, LAMBDA r, k : IF r = k THEN R1(c) ELSE IF r + k = 5 THEN I1(-s) ELSE Zero)
RECURSIVE FGmsFold(_, _, _, _, _)
FGmsFold(n, i, j, t, M) ==
  IF i >= n - 1 THEN M
  ELSE IF j >= n THEN FGmsFold(n, i + 1, i + 2, t, M)
  ELSE FGmsFold(n, i, j + 1, t, FLeftApply(FXX(t), <<i, j>>, n, M))
FGms(n, t) == FGmsFold(n, 0, 1, t, FId(Pow2(n)))

FAdd(A, B) == Mat(Dim(A), LAMBDA r, c : Add(A[r][c], B[r][c]))

\* exp(i t H) for a Hermitian fixed-point matrix H (norm at most about 4)
RECURSIVE FTaylor(_, _, _, _, _)
FTaylor(X, k, n, term, acc) ==
  IF k > n THEN acc
  ELSE LET P == TLCEval(FMMul(term, X))
           t2 == TLCEval(Mat(Dim(X), LAMBDA r, c : <<RDiv(P[r][c][1], k), RDiv(P[r][c][2], k)>>))
       IN FTaylor(X, k + 1, n, t2, TLCEval(FAdd(acc, t2)))
RECURSIVE FSquare(_, _)
FSquare(M, j) == IF j = 0 THEN M ELSE FSquare(TLCEval(FMMul(M, M)), j - 1)
FEvolS(H, t, j) ==      \* 2^j >= norm of t H
  LET p == Pow2(j)
      X == TLCEval(Mat(Dim(H), LAMBDA r, c :
             LET z == FScale(t, H[r][c]) IN <<RDiv(-z[2], p), RDiv(z[1], p)>>))
  IN FSquare(FTaylor(X, 1, 7, FId(Dim(H)), FId(Dim(H))), j)
MaxRow(H) ==            \* a bound of the norm: largest row sum
  LET RS(r) == SumC(LAMBDA c : <<IAbs(H[r][c][1]) + IAbs(H[r][c][2]), 0>>, Dim(H), Zero)[1]
  IN CHOOSE m \in {RS(r) : r \in 1..Dim(H)} : \A r \in 1..Dim(H) : RS(r) <= m
RECURSIVE Log2Up(_, _)
Log2Up(x, j) == IF x <= S THEN j ELSE Log2Up(x \div 2, j + 1)
FEvol(H, t) == FEvolS(H, t, Log2Up(FMul1(MaxRow(H), IAbs(t)), 0))

GateF(name, n, p) ==
  CASE name = "rx"   -> FRx(p[1])
    [] name = "ry"   -> FRy(p[1])
    [] name = "rz"   -> FRz(p[1])
    [] name = "rxy"  -> FRphi(p[1], p[2])
    [] name = "rxyz" -> FRxyz(p[1], p[2], p[3])
    [] name = "xx"   -> FXX(p[1])
    [] name = "gms"  -> FGms(n, p[1])
=============================================================================
