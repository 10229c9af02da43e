------------------------------ MODULE HamSpec ------------------------------
(***************************************************************************)
(* Hamiltonians given by the spectra of their terms, which are integers    *)
(* times a unit of frequency; time is counted so that phases are integers  *)
(* modulo PN (2 pi = PN).  Any spectrum, any number of terms, any          *)
(* system size and times of thousands of periods are exact.  The harness   *)
(* picks the eigenvectors of every term; when all terms have the same ones *)
(* (same = TRUE) they commute and the whole evolution is specified too.    *)
(*   case: [d |-> <<spectrum of term 1, ...>>, k |-> time of a step,       *)
(*          n |-> number of steps, same |-> BOOLEAN]                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, TLC
LOCAL INSTANCE SequencesExt

CONSTANTS PN, L     \* L: a common multiple of all norms
Cases == JsonDeserialize("spectra.json")

Abs(x) == IF x < 0 THEN -x ELSE x
Big(d) == CHOOSE m \in {Abs(d[i]) : i \in 1..Len(d)} : \A i \in 1..Len(d) : Abs(d[i]) <= m
Turn(d, k) == [i \in 1..Len(d) |-> (d[i] * (k % PN)) % PN]
Plus(a, b) == [i \in 1..Len(a) |-> (a[i] + b[i]) % PN]
Zeros(n) == [i \in 1..n |-> 0]
Sum(c) == FoldLeft(LAMBDA a, d : [i \in 1..Len(a) |-> a[i] + d[i]], Zeros(Len(c.d[1])), c.d)
\* evolutions of the terms for a step, of the normalised terms, of the whole
Step(c) == [t \in 1..Len(c.d) |-> Turn(c.d[t], c.k)]
Unit(c) == [t \in 1..Len(c.d) |-> Turn([i \in 1..Len(c.d[t]) |-> c.d[t][i] * (L \div Big(c.d[t]))], c.k)]
WholeStep(c) == Turn(Sum(c), c.k)
Whole(c) == Turn(Sum(c), c.k * c.n)

VARIABLES i,       \* case
          done,    \* steps put together so far
          acc      \* phases of their product, term after term
vars == <<i, done, acc>>
Init == i \in 1..Len(Cases) /\ done = 0 /\ acc = Zeros(Len(Cases[i].d[1]))
Next == /\ done < Cases[i].n
        /\ done' = done + 1
        /\ acc' = FoldLeft(Plus, acc, Step(Cases[i]))
        /\ UNCHANGED i
Spec == Init /\ [][Next]_vars

\* steps of all terms one after the other are the evolution of the whole for
\* that time when terms commute, at every point of the sequence
Steps_Add_Up == acc = Turn(Sum(Cases[i]), Cases[i].k * done)
Norms_Divide == \A t \in 1..Len(Cases[i].d) : LET b == Big(Cases[i].d[t]) IN b > 0 /\ L % b = 0
Lie_Inverse == \A t \in 1..Len(Cases[i].d) :
  Plus(Turn(Cases[i].d[t], Cases[i].k), Turn(Cases[i].d[t], -Cases[i].k)) = Zeros(Len(acc))
Tell == done = 0 => PrintT("@@" \o ToJson([case |-> i, step |-> Step(Cases[i]), unit |-> Unit(Cases[i]),
   whole |-> Whole(Cases[i]), one |-> WholeStep(Cases[i]),
   norms |-> [t \in 1..Len(Cases[i].d) |-> Big(Cases[i].d[t])]]))
=============================================================================
