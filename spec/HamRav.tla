------------------------------- MODULE HamRav -------------------------------
(***************************************************************************)
(* The random part of a Hamiltonian RAV sequence: steps are added until    *)
(* their magnitudes reach the requested time.  Magnitudes and time in      *)
(* units of 1e-7; Slack covers their rounding.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
Cases == JsonDeserialize("rav.json")
RECURSIVE Sum(_, _)
Sum(t, j) == IF j = 0 THEN 0 ELSE Sum(t, j - 1) + t[j]
Ok(cs) ==
  LET n == Len(cs.times)
      slack == n + 1
  IN /\ Sum(cs.times, n) >= cs.time - slack
     /\ n > 0 => Sum(cs.times, n - 1) < cs.time + slack
     /\ cs.time = 0 => n = 0
VARIABLE i
Init == i \in 1..Len(Cases)
Next == UNCHANGED i
Spec == Init /\ [][Next]_i
Verdict == PrintT("@@" \o ToJson([case |-> i, ok |-> Ok(Cases[i])]))
=============================================================================
