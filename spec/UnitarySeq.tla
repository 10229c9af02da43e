----------------------------- MODULE UnitarySeq -----------------------------
(***************************************************************************)
(* A world of sequence objects (registers) and of lists of entries that    *)
(* callers hold, and every operation that touches them.                    *)
(***************************************************************************)
EXTENDS SeqOps, FiniteSets, Randomization, Json

CONSTANTS R,         \* number of registers
          L,         \* number of caller-held lists
          MaxLen,    \* registers are kept at most this long (generation bound)
          Kinds,     \* tuple of operation kinds (repeats weigh simulation)
          Saves,     \* subset of {0, 1, 2}: save_undo False, True, left out
          Objs,      \* subset of {"new", "pool"}: fresh entry objects or shared ones
          MaxOps,    \* length of a history
          Mode       \* "mc", "all" or "sim"

VARIABLES reg, lst,
          ghost,     \* per register: entries before its last saved change (<<>> or <<es>>)
          hist       \* operations and what must be observed after each

vars == <<reg, lst, ghost, hist>>
Regs  == 1..R
Lists == 1..L
Signed == {v : v \in 1..Len(Voc)} \cup {-v : v \in 1..Len(Voc)}

Saving(x) == x # 0

----------------------------------------------------------------------------
\* operation records of one kind in the current world
Ops(kind) ==
  CASE kind = "new"  -> {[k |-> kind, r |-> r] : r \in Regs}
    [] kind = "app"  ->
        {[k |-> kind, r |-> r, at |-> at, v |-> v, save |-> sv, obj |-> ob] :
           r \in {x \in Regs : Len(reg[x].e) < MaxLen}, at \in {"F", "L"},
           v \in 1..Len(Voc), sv \in Saves, ob \in Objs}
    [] kind = "appi" ->
        {[k |-> "app", r |-> r, at |-> at, v |-> -v, save |-> sv, obj |-> ob] :
           r \in {x \in Regs : Len(reg[x].e) < MaxLen}, at \in {"F", "L"},
           v \in 1..Len(Voc), sv \in Saves, ob \in Objs}
    [] kind = "burst" ->
        {[k |-> kind, r |-> r, at |-> at, v |-> v, n |-> n, save |-> sv] :
           r \in {x \in Regs : Len(reg[x].e) + 600 <= MaxLen}, at \in {"F", "L"},
           v \in RandomSubset(1, Signed), n \in RandomSubset(1, 100..600), sv \in Saves}
    [] kind = "rem"  ->
        {[k |-> kind, r |-> r, at |-> at, save |-> sv] :
           r \in Regs, at \in {"F", "L"}, sv \in Saves}
    [] kind = "undo" -> {[k |-> kind, r |-> r] : r \in Regs}
    [] kind = "prod" -> {[k |-> kind, r |-> r] : r \in Regs}
    [] kind = "text" -> {[k |-> kind, r |-> r] : r \in Regs}
    [] kind = "len"  -> {[k |-> kind, r |-> r] : r \in Regs}
    [] kind = "copy" -> {[k |-> kind, r |-> r, s |-> s] : r, s \in Regs}
    [] kind = "inv"  -> {[k |-> kind, r |-> r, s |-> s] : r, s \in Regs}
    [] kind = "comb1" -> {[k |-> "comb", r |-> r, ss |-> <<s>>] : r, s \in Regs}
    [] kind = "comb2" ->
        {[k |-> "comb", r |-> x[1], ss |-> <<x[2], x[3]>>] :
           x \in {y \in Regs \X Regs \X Regs :
                    Len(reg[y[2]].e) + Len(reg[y[3]].e) <= MaxLen}}
    [] kind = "comb3" ->
        {[k |-> "comb", r |-> x[1], ss |-> <<x[2], x[3], x[4]>>] :
           x \in {y \in Regs \X Regs \X Regs \X Regs :
                    Len(reg[y[2]].e) + Len(reg[y[3]].e) + Len(reg[y[4]].e) <= MaxLen}}
    [] kind = "make" ->
        {[k |-> kind, r |-> r, vs |-> vs, arr |-> ar, obj |-> ob, l |-> l] :
           r \in Regs,
           vs \in IF Mode = "sim"
                  THEN {[i \in 1..n |-> RandomElement(Signed)] : n \in RandomSubset(1, 0..(MaxLen \div 2))}
                  ELSE {<<1>>, <<1, 1>>, <<1, -Len(Voc), 1>>},
           ar \in {0, 1}, ob \in Objs, l \in Lists}
    [] kind = "hand" -> {[k |-> kind, l |-> l, s |-> s] : l \in Lists, s \in Regs}
    [] kind = "makel" -> {[k |-> kind, r |-> r, l |-> l] :
                            r \in Regs, l \in {x \in Lists : Len(lst[x]) <= MaxLen}}
    [] kind = "scrib" -> {[k |-> kind, l |-> l, how |-> h] :
                            l \in Lists, h \in {"pop0", "pop", "rev", "clear", "dup"}}
    [] kind = "bad" -> {[k |-> kind, r |-> r, how |-> h] : r \in Regs,
                          h \in {"qubit", "large", "notentry", "notentryF", "combdim", "combnone",
                                 "combtype", "makebad", "maketype", "undo2", "qubitF", "largeF"}}

Scribbled(es, h) ==
  CASE h = "pop0" -> IF es = <<>> THEN es ELSE Tail(es)
    [] h = "pop"  -> IF es = <<>> THEN es ELSE SubSeq(es, 1, Len(es) - 1)
    [] h = "rev"  -> Reversed(es)
    [] h = "clear" -> <<>>
    [] h = "dup"  -> IF es = <<>> \/ Len(es) >= MaxLen THEN es ELSE Append(es, es[1])

\* the registers after an operation
QueryAll(rg, ss) == [x \in Regs |-> IF x \in ss THEN Query(rg[x]) ELSE rg[x]]
After(op) ==
  CASE op.k = "new"  -> [reg EXCEPT ![op.r] = NewSeq(<<>>)]
    [] op.k = "app"  -> [reg EXCEPT ![op.r] =
          IF op.at = "F" THEN AppendFirst(reg[op.r], op.v, Saving(op.save))
                         ELSE AppendLast(reg[op.r], op.v, Saving(op.save))]
    [] op.k = "burst" -> [reg EXCEPT ![op.r] = Burst(reg[op.r], op.at, op.v, op.n, Saving(op.save))]
    [] op.k = "rem"  -> [reg EXCEPT ![op.r] =
          IF op.at = "F" THEN RemoveFirst(reg[op.r], Saving(op.save))
                         ELSE RemoveLast(reg[op.r], Saving(op.save))]
    [] op.k = "undo" -> [reg EXCEPT ![op.r] = IF CanUndo(reg[op.r]) THEN Undo(reg[op.r]) ELSE reg[op.r]]
    [] op.k = "prod" -> [reg EXCEPT ![op.r] = Query(reg[op.r])]
    [] op.k \in {"text", "len", "bad", "hand", "scrib"} -> reg
    [] op.k = "copy" -> [reg EXCEPT ![op.r] = NewSeq(reg[op.s].e)]
    [] op.k = "inv"  -> [QueryAll(reg, {op.s}) EXCEPT ![op.r] = Inverse(reg[op.s])]
    [] op.k = "comb" -> LET q == QueryAll(reg, {op.ss[i] : i \in 1..Len(op.ss)}) IN
                        [q EXCEPT ![op.r] = Combine([i \in 1..Len(op.ss) |-> q[op.ss[i]]])]
    [] op.k = "make" -> [reg EXCEPT ![op.r] = NewSeq(op.vs)]
    [] op.k = "makel" -> [reg EXCEPT ![op.r] = NewSeq(lst[op.l])]
ListsAfter(op) ==
  CASE op.k = "hand"  -> [lst EXCEPT ![op.l] = reg[op.s].e]
    [] op.k = "scrib" -> [lst EXCEPT ![op.l] = Scribbled(lst[op.l], op.how)]
    [] op.k = "make"  -> [lst EXCEPT ![op.l] = op.vs]
    [] OTHER -> lst

\* C06 in the words of the property: which state an undo must bring back
GhostAfter(op) ==
  CASE op.k \in {"app", "burst"} -> IF Saving(op.save) THEN [ghost EXCEPT ![op.r] = <<reg[op.r].e>>] ELSE ghost
    [] op.k = "rem" -> IF Saving(op.save) /\ reg[op.r].e # <<>>
                       THEN [ghost EXCEPT ![op.r] = <<reg[op.r].e>>] ELSE ghost
    [] op.k \in {"undo", "new", "copy", "inv", "comb", "make", "makel"} -> [ghost EXCEPT ![op.r] = <<>>]
    [] OTHER -> ghost

\* what the operation itself answers: TRUE unless it must be refused
Answer(op) == CASE op.k = "undo" -> CanUndo(reg[op.r])
                [] op.k = "bad"  -> FALSE
                [] OTHER -> TRUE

Target(op) == IF op.k \in {"hand", "scrib"} THEN 0 ELSE op.r
Obs(op, rg, ls) ==
  LET r == Target(op) IN
  [op |-> op, ok |-> Answer(op),
   e  |-> IF r = 0 THEN <<>> ELSE rg[r].e,
   m  |-> IF r = 0 THEN <<>> ELSE ProductOf(rg[r].e),
   pe |-> IF r = 0 THEN <<>> ELSE rg[r].pe,
   pm |-> IF r = 0 \/ rg[r].pe = <<>> THEN <<>> ELSE ProductOf(rg[r].pe[1]),
   l  |-> IF op.k \in {"hand", "scrib", "make"} THEN ls[op.l] ELSE <<>>]

Do(op) ==
  /\ reg' = TLCEval(After(op))
  /\ lst' = TLCEval(ListsAfter(op))
  /\ ghost' = TLCEval(GhostAfter(op))
  /\ hist' = IF Mode = "mc" THEN hist ELSE TLCEval(Append(hist, Obs(op, reg', lst')))

Init == /\ reg = [r \in Regs |-> NewSeq(<<>>)]
        /\ lst = [l \in Lists |-> <<>>]
        /\ ghost = [r \in Regs |-> <<>>]
        /\ hist = <<>>

NextAll == /\ Len(hist) < MaxOps
           /\ \E k \in {Kinds[i] : i \in 1..Len(Kinds)} : \E op \in Ops(k) : Do(op)
NextSim == /\ Len(hist) < MaxOps
           /\ \E i \in RandomSubset(1, 1..Len(Kinds)) :
                LET A == TLCEval(Ops(Kinds[i]))
                    T == IF A = {} THEN Ops("prod") ELSE A
                IN \E op \in RandomSubset(1, T) : Do(op)
Next == IF Mode = "sim" THEN NextSim ELSE NextAll
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* properties of the design
TypeOK == \A r \in Regs : Len(reg[r].p) <= 1 /\ Len(reg[r].pe) <= 1 /\ Len(reg[r].pp) <= 1
C05_Cache == \A r \in Regs : CacheCoherent(reg[r])
C06_Saved == \A r \in Regs : SavedCoherent(reg[r]) /\ reg[r].pe = ghost[r]
C07_Inverse == \A r \in Regs : LET i == Inverse(reg[r]) IN
                 /\ CacheCoherent(i)
                 /\ Inverse(i).e = reg[r].e
                 /\ Combine(<<reg[r], i>>).p[1] = Id
C07_Combine == \A r, s \in Regs : LET c == Combine(<<reg[r], reg[s]>>) IN
                 /\ CacheCoherent(c) /\ c.e = reg[r].e \o reg[s].e /\ c.pe = <<>>
\* C08: an operation changes no other register
Only(op) == \A r \in Regs : r # Target(op) => reg'[r].e = reg[r].e /\ reg'[r].pe = reg[r].pe

\* emission of behaviours for replay
Emit == CASE Mode = "all" -> hist = <<>> \/
              PrintT("@@" \o ToJson([h |-> [i \in 1..Len(hist) |-> hist[i].op], o |-> hist[Len(hist)]]))
          [] Mode = "sim" -> Len(hist) < MaxOps \/ PrintT("@@" \o ToJson([hist |-> hist]))
          [] OTHER -> TRUE
EmitVoc == PrintT("@@" \o ToJson([voc |->
             [v \in 1..Len(Voc) |-> [g |-> Voc[v].g, q |-> Voc[v].q, w |-> Len(Voc[v].q),
                small |-> IF Monomial THEN ExactMat[v] ELSE GateMat(Voc[v].g), full |-> FullMat(v), inv |-> FullMat(-v)]]]))
ASSUME Mode = "mc" \/ EmitVoc
=============================================================================
