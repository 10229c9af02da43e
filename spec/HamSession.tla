----------------------------- MODULE HamSession -----------------------------
(***************************************************************************)
(* A session with Hamiltonian objects: a caller keeps a list of term       *)
(* objects, builds Hamiltonians from it, goes on changing the list, and    *)
(* asks every Hamiltonian for evolutions and sequences in any order.       *)
(* A Hamiltonian is the tuple of terms it was built from and nothing else: *)
(* no request and no later change of the list has an effect on it.         *)
(* All terms commute, so that the evolution of every selection of terms,   *)
(* with repetitions, is exact.                                             *)
(***************************************************************************)
EXTENDS GateLib, FiniteSets, Randomization, Json

CONSTANTS TermSet,       \* tuple of terms, see Hamil.tla
          PP, QQ,        \* unit of time
          Hams, MaxList, MaxOps, Kinds

H == INSTANCE Hamil WITH Terms <- TermSet, Groups <- <<>>, P <- PP, Q <- QQ,
                         K <- 1, N <- 1, Kind <- "session", es <- <<>>, left <- {}
ASSUME H!Terms_Good
ASSUME H!Commuting

VARIABLES lst, ham, hist
vars == <<lst, ham, hist>>
T == 1..Len(TermSet)
NQ_ == Len(TermSet[1][1][2])
Norms == TLCEval([t \in T |-> H!Norm(TermSet[t])])

MaxK == IF PP = QQ THEN 24 ELSE 8
\* evolutions of single terms, where the numbers stay small
Table == TLCEval([t \in T |-> TLCEval([j \in 1..(2 * MaxK + 1) |->
           IF PP = QQ THEN H!Evol(TermSet[t], (j - 1 - MaxK) % 8)
           ELSE IF IAbs(j - 1 - MaxK) * Norms[t] <= 12
           THEN H!Evol(TermSet[t], j - 1 - MaxK) ELSE <<>>])])

\* the evolution of a selection of terms for the time k
RECURSIVE SelEvol(_, _, _)
SelEvol(ts, j, k) ==
  IF j = 0 THEN IdM(Pow2(NQ_))
  ELSE LET A == Table[ts[j]][k + MaxK + 1]
           B == TLCEval(SelEvol(ts, j - 1, k))
       IN TLCEval(Canon(TLCEval(MMul(A, B))))
Evolution(ts, k) == SelEvol(ts, Len(ts), k)
RECURSIVE Strength(_, _)
Strength(ts, j) == IF j = 0 THEN 0 ELSE Strength(ts, j - 1) + Norms[ts[j]]

\* keeps the numbers small unless the unit of time is a quarter turn
Ks(ts, n) == LET b == IF PP = QQ THEN 6 ELSE 8 \div (n * Strength(ts, Len(ts)))
             IN (-b)..b
Ops(kind) ==
  LET Built == {r \in Hams : ham[r] # <<>>} IN
  CASE kind = "put" -> {[k |-> kind, t |-> t] : t \in {u \in T : Len(lst) < MaxList}}
    [] kind = "drop" -> {[k |-> kind, at |-> a] : a \in 1..Len(lst)}
    [] kind = "turn" -> {[k |-> kind]}
    [] kind = "build" -> {[k |-> kind, r |-> r] : r \in {x \in Hams : lst # <<>>}}
    [] kind = "evol" -> UNION {{[k |-> kind, r |-> r, m |-> m, n |-> 1] : m \in Ks(ham[r], 1)} : r \in Built}
    [] kind \in {"ideal", "trotter", "random"} ->
         UNION {{[k |-> kind, r |-> z[1], m |-> m, n |-> z[2]] : m \in Ks(ham[z[1]], z[2])} : z \in Built \X (1..4)}
    [] kind = "qdrift" -> {[k |-> kind, r |-> r, m |-> m, n |-> n] : r \in Built, m \in -4..4, n \in 1..6}
    [] kind = "search" -> {[k |-> kind, r |-> r, how |-> h] : r \in Built, h \in {"stoq", "rav", "stoqs", "ravs"}}

After(op) ==
  CASE op.k = "put" -> <<Append(lst, op.t), ham>>
    [] op.k = "drop" -> <<SubSeq(lst, 1, op.at - 1) \o SubSeq(lst, op.at + 1, Len(lst)), ham>>
    [] op.k = "turn" -> <<TLCEval([j \in 1..Len(lst) |-> lst[Len(lst) + 1 - j]]), ham>>
    [] op.k = "build" -> <<lst, [ham EXCEPT ![op.r] = lst]>>
    [] OTHER -> <<lst, ham>>
\* what the request must answer
Answer(op) ==
  IF op.k \notin {"evol", "ideal", "trotter", "random", "qdrift"} THEN [ts |-> <<>>, one |-> <<>>, all |-> <<>>]
  ELSE [ts |-> ham[op.r],
        one |-> IF op.k \in {"evol", "ideal"} THEN <<Evolution(ham[op.r], op.m)>> ELSE <<>>,
        all |-> IF op.k \in {"ideal", "trotter", "random"} THEN <<Evolution(ham[op.r], op.n * op.m)>> ELSE <<>>]

Do(op) ==
  LET a == TLCEval(After(op)) IN
  /\ lst' = a[1]
  /\ ham' = a[2]
  /\ hist' = TLCEval(Append(hist, [op |-> op, a |-> Answer(op)]))
Init == lst = <<>> /\ ham = [r \in Hams |-> <<>>] /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E i \in RandomSubset(1, 1..Len(Kinds)) :
             LET A == TLCEval(Ops(Kinds[i]))
                 B == IF A = {} THEN Ops("put") ELSE A
                 C == IF B = {} THEN Ops("turn") ELSE B
             IN \E op \in RandomSubset(1, C) : Do(op)
Spec == Init /\ [][Next]_vars

\* requests have no effect, and building copies
Frozen == [][\A r \in Hams : ham'[r] # ham[r] => ham'[r] = lst /\ lst' = lst]_vars
Tell == Len(hist) < MaxOps \/ PrintT("@@" \o ToJson([hist |-> hist]))
ASSUME PrintT("@@" \o ToJson([terms |-> [t \in T |->
         [h |-> H!HM_(TermSet[t]), n |-> Norms[t], e |-> Table[t],
          u |-> [j \in 1..9 |-> H!EvolUnit(TermSet[t], j - 5)]]], maxk |-> MaxK]))
=============================================================================
