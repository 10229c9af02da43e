-------------------------------- MODULE Stoq --------------------------------
(***************************************************************************)
(* The stochastic search of the compiler (plain and layered), built on the *)
(* sequence operations it performs: propose one end edit, then keep it or  *)
(* undo it.  Randomness is nondeterminism; costs are exact.                *)
(***************************************************************************)
EXTENDS SeqOps, StoqDefs, FiniteSets

CONSTANTS Prims,      \* tuple: primitive i is the set Prims[i] of entries it can become
          Counts,     \* layered: how many of each primitive a layer has; <<>> for plain
          TargetEs,   \* the target is the product of these entries
          ThrN, ThrD, \* threshold ThrN / ThrD
          MaxSteps,
          Frozen,     \* TRUE: beta so large that nothing worse is ever kept
          MaxBeta     \* beta counts annealing steps and stops here

VARIABLES s, costs, ph, was, beta
vars == <<s, costs, ph, was, beta>>

Layered == Counts # <<>>
RECURSIVE SumT(_, _)
SumT(t, k) == IF k = 0 THEN 0 ELSE SumT(t, k - 1) + t[k]
B == IF Layered THEN SumT(Counts, Len(Counts)) ELSE 1
Allowed == UNION {Prims[i] : i \in 1..Len(Prims)}
IsLayer(blk) == \A i \in 1..Len(Prims) : CountIn(blk, LAMBDA x : x \in Prims[i]) = Counts[i]
Blocks == {blk \in [1..B -> Allowed] : Layered => IsLayer(blk)}

Target == TLCEval(ProductOf(TargetEs))
D2 == Pow2(NQ) * Pow2(NQ)
\* squared normalised overlap as a fraction
Ov(M) == <<Norm2(Overlap(Target, M)), D2 * Scale2(M) * Scale2(Target)>>
Better(a, b) == a[1] * b[2] > b[1] * a[2]     \* strictly larger overlap = smaller cost
Close(a) == a[1] * ThrD * ThrD >= ThrN * ThrN * a[2]

\* the operations of one proposal; only the first one saves
RECURSIVE AddF(_, _, _), AddL(_, _, _), RemF(_, _), RemL(_, _)
AddF(q, blk, i) == IF i > Len(blk) THEN q ELSE AddF(AppendFirst(q, blk[i], i = 1), blk, i + 1)
AddL(q, blk, i) == IF i > Len(blk) THEN q ELSE AddL(AppendLast(q, blk[i], i = 1), blk, i + 1)
RemF(q, i) == IF i > B THEN q ELSE RemF(RemoveFirst(q, i = 1), i + 1)
RemL(q, i) == IF i > B THEN q ELSE RemL(RemoveLast(q, i = 1), i + 1)

Init == /\ s = NewSeq(<<>>) /\ costs = <<>> /\ ph = "loop" /\ was = <<>> /\ beta = 0

Stop == /\ ph = "loop"
        /\ s' = Query(s)
        /\ Close(Ov(s'.p[1])) \/ Len(costs) >= MaxSteps
        /\ ph' = "done"
        /\ UNCHANGED <<costs, was, beta>>

Propose ==
  /\ ph = "loop"
  /\ LET q == Query(s) IN
     /\ ~Close(Ov(q.p[1]))
     /\ Len(costs) < MaxSteps
     /\ was' = <<q.e, Ov(q.p[1])>>
     /\ \/ \E blk \in Blocks : s' = Query(AddF(q, blk, 1))
        \/ \E blk \in Blocks : s' = Query(AddL(q, blk, 1))
        \/ s' = Query(RemF(q, 1))
        \/ s' = Query(RemL(q, 1))
  /\ ph' = "decide"
  /\ beta' = IF beta < MaxBeta THEN beta + 1 ELSE beta
  /\ UNCHANGED costs

NewCost == Ov(s.p[1])
Accept ==
  /\ ph = "decide"
  /\ Frozen => ~Better(was[2], NewCost)
  /\ costs' = Append(costs, NewCost)
  /\ ph' = "loop"
  /\ UNCHANGED <<s, was, beta>>
Reject ==
  /\ ph = "decide"
  /\ Better(was[2], NewCost)          \* only an increase of the cost can be refused
  /\ CanUndo(s)
  /\ s' = Undo(s)
  /\ costs' = Append(costs, was[2])
  /\ ph' = "loop"
  /\ UNCHANGED <<was, beta>>

Next == Stop \/ Propose \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
C01_Stop ==
  /\ Len(costs) <= MaxSteps
  /\ ph = "done" => (Close(Ov(ProductOf(s.e))) \/ Len(costs) = MaxSteps)
  /\ ph = "decide" => ~Close(was[2]) /\ Len(costs) < MaxSteps
  /\ ph = "done" /\ Close(Ov(Id)) => costs = <<>> /\ s.e = <<>>
C02_Costs ==
  /\ ph # "decide" /\ costs # <<>> => costs[Len(costs)] = Ov(ProductOf(s.e))
  /\ \A i \in 1..Len(costs) : costs[i][1] <= costs[i][2]
C03_Undoable == ph = "decide" => (CanUndo(s) \/ ~Better(was[2], NewCost))
C03_Edit ==
  /\ ph = "decide" => Edits(was[1], s.e, B) # {}
  /\ ph = "loop" /\ was # <<>> => Edits(was[1], s.e, B) # {}
C03_Undo == ph = "decide" /\ CanUndo(s) /\ Better(was[2], NewCost) => Undo(s).e = was[1]
C03_Beta == beta = IF Len(costs) + (IF ph = "decide" THEN 1 ELSE 0) < MaxBeta
                   THEN Len(costs) + (IF ph = "decide" THEN 1 ELSE 0) ELSE MaxBeta
C03_Frozen == Frozen /\ ph # "decide" /\ was # <<>> /\ costs # <<>> =>
              ~Better(was[2], costs[Len(costs)])
C04_Permitted == \A i \in 1..Len(s.e) : s.e[i] \in Allowed
C05_Cache == CacheCoherent(s) /\ SavedCoherent(s)
C13_Layers == Layered => InBlocks(s.e, B, IsLayer)
Terminates == <>(ph = "done")
=============================================================================
