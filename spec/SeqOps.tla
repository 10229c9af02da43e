------------------------------- MODULE SeqOps -------------------------------
(***************************************************************************)
(* The sequence object (class UnitarySequence) as a value:                 *)
(*   e   its entries, first entry first                                    *)
(*   p   cached product,  <<>> or <<matrix>>                               *)
(*   pe  saved entries,   <<>> or <<entries>>                              *)
(*   pp  saved product,   <<>> or <<matrix>>                               *)
(* An entry is a non-zero number: v stands for vocabulary item v, -v for   *)
(* its inverse.  The operators below follow the implementation operation   *)
(* by operation (incremental products, lazy product, saved state), so that *)
(* model checking them against ProductOf checks the design.                *)
(***************************************************************************)
EXTENDS GateFix, Mono

CONSTANTS Arith,   \* "gauss": exact; "fix": fixed point (long sequences of small
                   \* rotations); "mono": monomial (wide systems, very long sequences)
          NQ,      \* number of system qubits
          Voc      \* vocabulary: tuple of records [g |-> gate, q |-> qubits]

Exact == Arith = "gauss"
Monomial == Arith = "mono"
ExactMat == TLCEval([v \in 1..Len(Voc) |-> TLCEval(IF Monomial THEN MonoGate(Voc[v].g)
                                                               ELSE Canon(GateMat(Voc[v].g)))])
ExactInv == TLCEval([v \in 1..Len(Voc) |-> TLCEval(IF Monomial THEN MonoInv(ExactMat[v])
                                                               ELSE Canon(Dagger(ExactMat[v])))])
VocMat == TLCEval([v \in 1..Len(Voc) |-> TLCEval(
            CASE Arith = "fix" -> GToFix(ExactMat[v])
              [] Exact -> ExactMat[v]
              \* monomial gates are kept as operators of the whole system
              [] OTHER -> MonoPlace(ExactMat[v], Voc[v].q, NQ))])
VocInv == TLCEval([v \in 1..Len(Voc) |-> TLCEval(
            CASE Arith = "fix" -> Dagger(VocMat[v])
              [] Exact -> Canon(Dagger(VocMat[v]))
              [] OTHER -> MonoInv(VocMat[v]))])
\* normal form after a multiplication, and after taking an adjoint
Nrm(M) == IF Exact THEN Canon(M)
          ELSE Mat(Dim(M), LAMBDA r, c : <<RDiv(M[r][c][1], S), RDiv(M[r][c][2], S)>>)
Adj(M) == IF Monomial THEN MonoInv(M) ELSE IF Exact THEN Canon(Dagger(M)) ELSE Dagger(M)
Times(A, B) == IF Monomial THEN MonoMul(A, B) ELSE Nrm(MMul(A, B))
EntMat(e) == IF e > 0 THEN VocMat[e] ELSE VocInv[-e]
EntQ(e)   == Voc[IAbs(e)].q
Id == IF Monomial THEN MonoId(NQ) ELSE IF Exact THEN IdM(Pow2(NQ)) ELSE FId(Pow2(NQ))
\* multiplying by an entry
EntAfter(e, M)  == IF Monomial THEN MonoMul(EntMat(e), M) ELSE Nrm(LeftApply(EntMat(e), EntQ(e), NQ, M))
EntBefore(M, e) == IF Monomial THEN MonoMul(M, EntMat(e)) ELSE Nrm(RightApply(M, EntMat(e), EntQ(e), NQ))

\* what an entry does to the whole system, and the definition of "product":
\* the first entry is the rightmost factor
FullMat(e) == IF Monomial THEN EntMat(e)
              ELSE Embed(IF e > 0 THEN ExactMat[e] ELSE ExactInv[-e], EntQ(e), NQ)
RECURSIVE ProdUpTo(_, _)
ProdUpTo(es, k) ==
  IF k = 0 THEN Id
  ELSE EntAfter(es[k], ProdUpTo(es, k - 1))
ProductOf(es) == IF Monomial THEN MFold(LAMBDA M, e : EntAfter(e, M), Id, es) ELSE ProdUpTo(es, Len(es))

Reversed(es) == [k \in 1..Len(es) |-> es[Len(es) + 1 - k]]
InverseEntries(es) == [k \in 1..Len(es) |-> -es[Len(es) + 1 - k]]

----------------------------------------------------------------------------
\* operations on one sequence
NewSeq(es) == [e |-> es, p |-> <<>>, pe |-> <<>>, pp |-> <<>>]

Save(s, save) ==
  IF ~save THEN s
  ELSE [s EXCEPT !.pe = <<s.e>>, !.pp = IF s.p # <<>> THEN s.p ELSE s.pp]

AppendFirst(s, v, save) ==
  LET t == Save(s, save) IN
  [t EXCEPT !.e = <<v>> \o t.e,
            !.p = IF t.p = <<>> THEN <<>>
                  ELSE <<EntBefore(t.p[1], v)>>]
AppendLast(s, v, save) ==
  LET t == Save(s, save) IN
  [t EXCEPT !.e = Append(t.e, v),
            !.p = IF t.p = <<>> THEN <<>>
                  ELSE <<EntAfter(v, t.p[1])>>]
RemoveFirst(s, save) ==
  IF s.e = <<>> THEN s ELSE
  LET t == Save(s, save)
      v == -t.e[1] IN
  [t EXCEPT !.e = Tail(t.e),
            !.p = IF t.p = <<>> THEN <<>>
                  ELSE <<EntBefore(t.p[1], v)>>]
RemoveLast(s, save) ==
  IF s.e = <<>> THEN s ELSE
  LET t == Save(s, save)
      v == -t.e[Len(t.e)] IN
  [t EXCEPT !.e = SubSeq(t.e, 1, Len(t.e) - 1),
            !.p = IF t.p = <<>> THEN <<>>
                  ELSE <<EntAfter(v, t.p[1])>>]
\* n times the same entry at one end; only the first of these changes is saved
Burst(s, at, v, n, save) ==
  LET t == Save(s, save)
      rep == [i \in 1..n |-> v]
  IN [t EXCEPT !.e = IF at = "F" THEN rep \o t.e ELSE t.e \o rep,
               !.p = IF t.p = <<>> THEN <<>>
                     ELSE <<MFold(LAMBDA M, e : IF at = "F" THEN EntBefore(M, e) ELSE EntAfter(e, M),
                                     t.p[1], rep)>>]
CanUndo(s) == s.pe # <<>>
Undo(s) == [e |-> s.pe[1], p |-> s.pp, pe |-> <<>>, pp |-> <<>>]
Query(s) == IF s.p # <<>> THEN s ELSE [s EXCEPT !.p = <<ProductOf(s.e)>>]

RECURSIVE CatE(_, _)
CatE(ss, k) == IF k = 0 THEN <<>> ELSE CatE(ss, k - 1) \o ss[k].e
RECURSIVE CatP(_, _)
CatP(ss, k) == IF k = 0 THEN Id ELSE Times(Query(ss[k]).p[1], CatP(ss, k - 1))
Combine(ss) == [NewSeq(CatE(ss, Len(ss))) EXCEPT !.p = <<CatP(ss, Len(ss))>>]
Inverse(s)  == [NewSeq(InverseEntries(s.e)) EXCEPT !.p = <<Adj(Query(s).p[1])>>]

----------------------------------------------------------------------------
\* what must hold of every reachable sequence object
CacheCoherent(s) == s.p # <<>> => s.p[1] = ProductOf(s.e)
SavedCoherent(s) == /\ s.pe = <<>> => s.pp = <<>>
                    /\ s.pe # <<>> /\ s.pp # <<>> => s.pp[1] = ProductOf(s.pe[1])
=============================================================================
