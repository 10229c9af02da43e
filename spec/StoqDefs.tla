------------------------------ MODULE StoqDefs ------------------------------
(***************************************************************************)
(* Vocabulary of the search, shared by the design (Stoq) and by the        *)
(* validation of recorded runs (StoqTrace).                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* Which end edits lead from entries es to entries et, when one edit adds or
\* removes a block of b entries?  (Removing from fewer than b entries removes
\* what is there.)
Edits(es, et, b) ==
  LET n == Len(es)
      m == Len(et)
      k == IF n < b THEN n ELSE b
  IN  {a \in {"none", "AF", "AL", "RF", "RL"} :
        CASE a = "none" -> et = es
          [] a = "AF" -> m = n + b /\ SubSeq(et, b + 1, m) = es
          [] a = "AL" -> m = n + b /\ SubSeq(et, 1, n) = es
          [] a = "RF" -> n > 0 /\ m = n - k /\ SubSeq(es, k + 1, n) = et
          [] a = "RL" -> n > 0 /\ m = n - k /\ SubSeq(es, 1, m) = et}
\* the block an addition has added
Added(es, et, b, a) == IF a = "AF" THEN SubSeq(et, 1, b) ELSE SubSeq(et, Len(es) + 1, Len(es) + b)

Occurrences(s, x) == LET I == {i \in 1..Len(s) : s[i] = x} IN I
CountIn(s, P(_)) ==
  LET RECURSIVE C(_)
      C(k) == IF k = 0 THEN 0 ELSE C(k - 1) + (IF P(s[k]) THEN 1 ELSE 0)
  IN C(Len(s))

\* s splits, from its first element on, into blocks of b each satisfying B
InBlocks(s, b, B(_)) ==
  /\ Len(s) % b = 0
  /\ \A i \in 0..((Len(s) \div b) - 1) : B(SubSeq(s, i * b + 1, (i + 1) * b))
=============================================================================
