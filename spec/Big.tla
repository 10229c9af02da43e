-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Natural numbers of any size as little-endian tuples of base-10000       *)
(* digits without leading zeros (zero is <<>>), for exact comparisons that *)
(* do not fit TLC's 32-bit integers.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

BASE == 10000

RECURSIVE BTrim(_)
BTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE BOf(_)
BOf(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o BOf(n \div BASE)
BDig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE BAddK(_, _, _, _, _)
BAddK(a, b, i, carry, acc) ==
  IF i > Len(a) /\ i > Len(b) /\ carry = 0 THEN acc
  ELSE LET s == BDig(a, i) + BDig(b, i) + carry
       IN BAddK(a, b, i + 1, s \div BASE, Append(acc, s % BASE))
BAdd(a, b) == BTrim(BAddK(a, b, 1, 0, <<>>))

RECURSIVE BMulDK(_, _, _, _, _)
BMulDK(a, d, i, carry, acc) ==      \* times one digit
  IF i > Len(a) /\ carry = 0 THEN acc
  ELSE LET s == BDig(a, i) * d + carry
       IN BMulDK(a, d, i + 1, s \div BASE, Append(acc, s % BASE))
\* a times BASE^k
BShift(a, k) == IF a = <<>> THEN <<>> ELSE [j \in 1..k |-> 0] \o a
RECURSIVE BMulS(_, _, _)
BMulS(a, b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE BAdd(BShift(BTrim(BMulDK(a, b[i], 1, 0, <<>>)), i - 1), BMulS(a, b, i + 1))
BMul(a, b) == BMulS(a, b, 1)

RECURSIVE BCmpK(_, _, _)
BCmpK(a, b, i) == IF i = 0 THEN 0
                  ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1
                  ELSE BCmpK(a, b, i - 1)
BCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1
              ELSE BCmpK(a, b, Len(a))
BLeq(a, b) == BCmp(a, b) <= 0
BSq(n) == BMul(BOf(n), BOf(n))
=============================================================================
