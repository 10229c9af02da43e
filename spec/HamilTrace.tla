----------------------------- MODULE HamilTrace -----------------------------
(***************************************************************************)
(* Validation of sequences built from Hamiltonians.  An entry of an        *)
(* "exact" case carries the set of term numbers whose specified evolution  *)
(* (Hamil.tla) its operator equals (0: whole Hamiltonian); an entry of a   *)
(* "fix" case carries its operator in fixed point and is compared with the *)
(* evolution computed here.                                                *)
(***************************************************************************)
EXTENDS GateFix, Json, FiniteSets, TLC

Cases == JsonDeserialize("ham.json")

Range(s) == {s[i] : i \in 1..Len(s)}
Count(n, Pr(_)) == Cardinality({i \in 1..n : Pr(i)})

IdsExact(cs, e) == Range(e.ids)
HSum(cs) == LET RECURSIVE A(_)
                A(j) == IF j = 1 THEN cs.hs[1] ELSE FAdd(A(j - 1), cs.hs[j])
            IN A(Len(cs.hs))
Mats(cs) == TLCEval([t \in 0..cs.nt |->
              IF t = 0 THEN FEvol(HSum(cs), cs.tstep) ELSE FEvol(cs.hs[t], cs.tstep)])
Ids(cs) ==
  IF cs.exact THEN [j \in 1..Len(cs.ents) |-> IdsExact(cs, cs.ents[j])]
  ELSE LET ms == Mats(cs) IN
       [j \in 1..Len(cs.ents) |-> {t \in 0..cs.nt : FSameP(ms[t], cs.ents[j].m, cs.tol)}]

Size(cs) == IF cs.kind \in {"trotter", "random"} THEN cs.n * cs.nt ELSE cs.n
Twins(cs, t) == IF cs.exact THEN Range(cs.twins[t]) ELSE {t}

Judge(cs) ==
  LET ids == TLCEval(Ids(cs))
      len == Len(cs.ents)
      Of(s, i) == ids[s * cs.nt + i]
      lenok == len = Size(cs)
  IN {x \in {"length", "qubits", "entry", "order", "once", "exact"} :
       ~CASE x = "length" -> lenok
          [] x = "qubits" -> \A j \in 1..len : cs.ents[j].q = [i \in 1..cs.nq |-> i - 1]
          [] x = "entry" -> \A j \in 1..len : IF cs.kind = "ideal" THEN 0 \in ids[j]
                                              ELSE ids[j] \ {0} # {}
          [] x = "order" -> cs.kind = "trotter" /\ lenok =>
               \A s \in 0..(cs.n - 1) : \A i \in 1..cs.nt : i \in Of(s, i)
          [] x = "once" -> cs.kind = "random" /\ lenok =>
               \A s \in 0..(cs.n - 1) : \A t \in 1..cs.nt :
                  Count(cs.nt, LAMBDA i : t \in Of(s, i)) = Cardinality(Twins(cs, t))
          [] x = "exact" -> cs.total # 2}

VARIABLE i
Init == i \in 1..Len(Cases)
Next == UNCHANGED i
Spec == Init /\ [][Next]_i
Verdict == PrintT("@@" \o ToJson([case |-> i, fails |-> Judge(Cases[i])]))
=============================================================================
