------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* Judging observed frequencies against the probabilities of the design.   *)
(*                                                                         *)
(* An alarm needs a deviation that, by Bernstein's inequality, a binomial  *)
(* variable with the specified probability p exceeds with probability less *)
(* than e^-L on either side:                                               *)
(*      t^2 > 2 L (n p (1 - p) + t / 3),   t = |observed - n p|.           *)
(* L = 24: less than 4 * 10^-11 per side and cell.  p is an interval       *)
(* [lo, hi] / PD, to allow for the accuracy of its computation.            *)
(***************************************************************************)
EXTENDS Big, Fix, Json, FiniteSets

L2 == 48
PD == 20000

\* z = <<observed, n, Big n pn, Big 3 n pn (PD - pn)>>: observed below (low)
\* or above what was expected
Far(z, low) ==
  LET o == BMul(BOf(z[1]), BOf(PD))
      \* 3 tp^2 > 2 L (v + tp PD),  tp = |o - np|; both sides kept positive:
      \* 3 o^2 + 3 e^2 > 6 o e + 2 L v + 2 L PD |o - e|
      lhs == BMul(BOf(3), BAdd(BMul(o, o), BMul(z[3], z[3])))
      cross == BAdd(BMul(BOf(6), BMul(o, z[3])), BMul(BOf(L2), z[4]))
      f == BOf(L2 * PD)
  IN IF low THEN /\ ~BLeq(z[3], o)
                 /\ ~BLeq(BAdd(lhs, BMul(f, o)), BAdd(cross, BMul(f, z[3])))
     ELSE /\ ~BLeq(o, z[3])
          /\ ~BLeq(BAdd(lhs, BMul(f, z[3])), BAdd(cross, BMul(f, o)))
Clip(p) == IF p < 0 THEN 0 ELSE IF p > PD THEN PD ELSE p
Of(n, obs, p) == <<obs, n, BMul(BOf(n), BOf(p)), BMul(BOf(3 * n), BMul(BOf(p), BOf(PD - p)))>>
TooFew(n, obs, p) == Far(Of(n, obs, Clip(p)), TRUE)
TooMany(n, obs, p) == Far(Of(n, obs, Clip(p)), FALSE)
CellBad(n, obs, lo, hi) ==
  \/ TooFew(n, obs, lo)
  \/ TooMany(n, obs, hi)

----------------------------------------------------------------------------
Tables == JsonDeserialize("stats.json")

RECURSIVE SumOf(_, _)
SumOf(t, i) == IF i = 0 THEN 0 ELSE SumOf(t, i - 1) + t[i]
RECURSIVE SumObs(_, _)
SumObs(t, i) == IF i = 0 THEN 0 ELSE SumObs(t, i - 1) + t[i][2]

(* Frequencies: cells <<weight, observed>>; the probabilities are the       *)
(* weights over their sum, up to t.slack.                                   *)
FreqBad(t) ==
  LET n == SumObs(t.cells, Len(t.cells))
      w == SumOf([i \in 1..Len(t.cells) |-> t.cells[i][1]], Len(t.cells))
  IN {i \in 1..Len(t.cells) :
        LET p == (t.cells[i][1] * PD) \div w
        IN \/ t.cells[i][1] = 0 /\ t.cells[i][2] > 0
           \/ CellBad(n, t.cells[i][2], p - t.slack, IF p = 0 THEN 0 ELSE p + 1 + t.slack)}
(* Every cell has been hit, among so many draws that an equally likely one  *)
(* is missed with a probability below e^-24.                                *)
ReachBad(t) ==
  {i \in 1..Len(t.cells) : t.cells[i][2] = 0
     /\ SumObs(t.cells, Len(t.cells)) >= 24 * Len(t.cells)}

(* Metropolis chain: m gates z-rotation of angle ang, target rotation phi.  *)
(* One step: m + u with probability app, m - u with 1 - app, each kept with *)
(* min(1, exp(-beta increase)), beta = min(step * rate, cap).               *)
Dist(t, m) == S - IAbs(FCos(RDiv(m * t.ang - t.phi, 2)))
BetaAt(t, k) ==       \* in 1/100
  LET b == k * t.rate IN IF b > t.cap * 100 THEN t.cap * 100 ELSE b
\* exp(-beta x): bounds
Hot(b, x) ==          \* b x / 100, not above 1000 PD
  IF x > 0 /\ b > 2000000000 \div x THEN 1000 * PD ELSE (x * b) \div 100
AccLo(b, x) == FExpNeg(Hot(b, IF x + 3 < 0 THEN 0 ELSE x + 3) + 1) - 3
AccHi(b, x) == IF x <= 3 THEN PD ELSE FExpNeg(Hot(b, x - 3)) + 3
Keep(t, k, a, c) ==   \* interval for the probability that a -> c is kept
  LET x == Dist(t, c) - Dist(t, a)
  IN IF x <= -3 THEN <<PD, PD>> ELSE <<AccLo(BetaAt(t, k), x), AccHi(BetaAt(t, k), x)>>
App(t) == RDiv(t.app, 1000000 \div PD)
Times(p, x) == RDiv(p * x, PD)
CellName(t, r) ==     \* r = <<k, m, up, down, stay>>
  LET k == r[1]
      m == r[2]
      n == r[3] + r[4] + r[5]
      up == Keep(t, k, m, m + t.u)
      dn == IF m = 0 THEN <<0, 0>> ELSE Keep(t, k, m, m - t.u)
  IN IF CellBad(n, r[3], Times(App(t), up[1]) - 1, Times(App(t), up[2]) + 1) THEN "up"
     ELSE IF m = 0 /\ r[4] > 0 THEN "down"
     ELSE IF m > 0 /\ CellBad(n, r[4], Times(PD - App(t), dn[1]) - 1, Times(PD - App(t), dn[2]) + 1) THEN "down"
     ELSE "ok"
ChainBad(t) == {i \in 1..Len(t.cells) : CellName(t, t.cells[i]) # "ok"}

(* The same over blocks of consecutive steps, for long searches:    *)
(* the sum of what was observed less what was expected is a martingale, to *)
(* which Freedman's inequality applies as Bernstein's does above, with the *)
(* sum of the variances.                                                   *)
Cap(p) == IF p < 0 THEN 0 ELSE IF p > PD THEN PD ELSE p
(* Cells are <<k, m, up, down, stay, k2>>, for steps k to k2.               *)
Expect(t, r) ==       \* <<up lo, up hi, down lo, down hi>>
  LET lo(c) == Keep(t, r[6], r[2], c)[1]
      hi(c) == Keep(t, r[1], r[2], c)[2]
  IN <<Cap(Times(App(t), lo(r[2] + t.u)) - 1), Cap(Times(App(t), hi(r[2] + t.u)) + 1),
       IF r[2] = 0 THEN 0 ELSE Cap(Times(PD - App(t), lo(r[2] - t.u)) - 1),
       IF r[2] = 0 THEN 0 ELSE Cap(Times(PD - App(t), hi(r[2] - t.u)) + 1)>>
RECURSIVE Sums(_, _, _, _, _)
\* over cells from..to: <<observed, n, Big sum of n p, Big sum of 3 n p (PD - p)>>
Sums(t, e, w, from, to) ==
  IF from > to THEN <<0, 0, BOf(0), BOf(0)>>
  ELSE LET r == t.cells[from]
           n == r[3] + r[4] + r[5]
           p == e[from][w]
           z == Sums(t, e, w, from + 1, to)
       IN <<r[IF w <= 2 THEN 3 ELSE 4] + z[1], n + z[2],
            BAdd(BMul(BOf(n), BOf(p)), z[3]),
            BAdd(BMul(BOf(3 * n), BMul(BOf(p), BOf(PD - p))), z[4])>>
WalkBad(t) ==         \* t.blocks: first and last cell of each block
  {i \in 1..Len(t.blocks) :
     \E e \in {TLCEval([x \in t.blocks[i][1]..t.blocks[i][2] |-> TLCEval(Expect(t, t.cells[x]))])} :
       \E w \in 1..4 :
         \E z \in {TLCEval(Sums(t, e, w, t.blocks[i][1], t.blocks[i][2]))} : Far(z, w \in {1, 3})}

(* One step that raises the cost by d / 10^9, with beta = min(rate, cap):   *)
(* cells <<n, kept, d, rate, cap>>; d * beta stays below 2 * 10^9.          *)
KeepBad(t) ==
  {i \in 1..Len(t.cells) :
     LET c == t.cells[i]
         b == IF c[4] > c[5] THEN c[5] ELSE c[4]
         x == RDiv(c[3] * b, 1000000000 \div PD)
     IN CellBad(c[1], c[2], FExpNeg(x + 10) - 5, FExpNeg(x - 10) + 5)}

BadCells(t) == CASE t.kind = "freq" -> FreqBad(t)
                 [] t.kind = "reach" -> ReachBad(t)
                 [] t.kind = "keep" -> KeepBad(t)
                 [] t.kind = "chain" -> ChainBad(t)
                 [] t.kind = "walk" -> WalkBad(t)

VARIABLE i
Init == i \in 1..Len(Tables)
Next == UNCHANGED i
Spec == Init /\ [][Next]_i
Verdict == PrintT("@@" \o ToJson([table |-> i, bad |-> BadCells(Tables[i])]))
=============================================================================
