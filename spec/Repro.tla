------------------------------- MODULE Repro -------------------------------
(***************************************************************************)
(* Reproducibility.  The design: what a call returns is a function of what *)
(* is asked and of the state of the random generators, nothing else, and   *)
(* nothing that was passed in is modified.  A recorded history is a        *)
(* sequence of events of calls on real objects (arguments and results      *)
(* interned as numbers):                                                   *)
(*   ask     what was asked (including construction arguments)             *)
(*   rng     random state in which it was asked                            *)
(*   out     what came back                                                *)
(*   later   the same result, read again at the end of the history (every  *)
(*           third result has been changed by the caller instead)          *)
(*   before, after   everything that was passed in                         *)
(*   obj     the object asked; it may have been asked before               *)
(*   lim, costs      step limit and cost list                              *)
(* The model replays the history with a memory of the first answer.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

Hist == JsonDeserialize("hist.json")

VARIABLES k, memo, fails
vars == <<k, memo, fails>>

\* first answers, as a sequence of records
Known(m, e) == {i \in 1..Len(m) : m[i].ask = e.ask /\ m[i].rng = e.rng /\ m[i].lim = e.lim}
\* the same question with another step limit
Kin(m, e) == {i \in 1..Len(m) : m[i].ask = e.ask /\ m[i].rng = e.rng /\ m[i].lim # e.lim}
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

Bad(list) == SelectSeq([i \in 1..Len(list) |-> IF list[i][2] THEN "" ELSE list[i][1]], LAMBDA x : x # "")

Init == k = 0 /\ memo = <<>> /\ fails = <<>>
Next ==
  /\ k < Len(Hist)
  /\ k' = k + 1
  /\ LET e == Hist[k + 1] IN
     /\ fails' = Bad(<<
          <<"C19.same", \A i \in Known(memo, e) : memo[i].out = e.out>>,
          <<"C19.limit", \A i \in Kin(memo, e) :
                IF memo[i].lim < e.lim THEN IsPrefix(memo[i].costs, e.costs)
                ELSE IsPrefix(e.costs, memo[i].costs)>>,
          <<"C19.stopped", \A i \in Kin(memo, e) :
                Len(memo[i].costs) = Len(e.costs) => memo[i].out = e.out>>,
          <<"C19.kept", e.later = e.out>>,
          <<"C19.input", e.before = e.after>> >>)
     /\ memo' = IF Known(memo, e) = {} THEN Append(memo, e) ELSE memo
Spec == Init /\ [][Next]_vars
Verdict == fails # <<>> => PrintT("@@" \o ToJson([event |-> k, fails |-> fails]))
=============================================================================
