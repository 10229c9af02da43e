----------------------------- MODULE StoqTrace -----------------------------
(***************************************************************************)
(* Validation of recorded runs of the real search against the design of    *)
(* Stoq.tla.  A case holds what compile / compile_layered / RAV returned   *)
(* for increasing step limits from one and the same random state: state j  *)
(* is what the search held after at most lims[j] steps.  Each case is one  *)
(* behaviour; every recorded step is judged clause by clause, and the      *)
(* verdict names every clause that fails.                                  *)
(***************************************************************************)
EXTENDS GateFix, Big, StoqDefs, Json, FiniteSets

Cases == JsonDeserialize("cases.json")

VARIABLES c,      \* case
          k,      \* last judged state
          prod,   \* product of the searched sequence of state k (exact or fixed point)
          base,   \* what the search aims at, same representation
          prims,  \* which primitives each entry of the table can be an instance of
          fails
vars == <<c, k, prod, base, prims, fails>>

K(cs) == Cases[cs]

NoRepeat(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
\* C04: entry e (record of the table) is an instance of primitive p.  e.hint, if
\* given, lists the only primitives worth trying.
QubitsOk(cs, p, e) ==
  /\ Len(e.q) = p.w /\ NoRepeat(e.q)
  /\ \A i \in 1..Len(e.q) : e.q[i] >= 0 /\ e.q[i] < cs.nq
  /\ \/ p.any
     \/ \E i \in 1..Len(p.allowed) : p.allowed[i] = e.q
ParamsOk(p, e) ==
  /\ Len(e.par) = p.np
  /\ \A i \in 1..Len(e.frac) : e.frac[i] >= 0 /\ e.frac[i] <= 1000000000
GateOf(p, e) == IF p.np = 0 THEN GToFix(GateMat(p.g))
                ELSE IF p.name = "evol" THEN FEvol(p.h, e.par[1])
                ELSE GateF(p.name, p.w, e.par)
InstanceOf(cs, p, e) ==
  /\ p.weight > 0
  /\ "hint" \in DOMAIN e => \E i \in 1..Len(e.hint) : cs.prims[e.hint[i]] = p
  /\ QubitsOk(cs, p, e)
  /\ ParamsOk(p, e)
  /\ LET G == TLCEval(GateOf(p, e)) IN
     FSameP(TLCEval(Embed(G, e.q, cs.nq)), e.m, 60)

MatExact(cs, e, ps) == Canon(GateMat(cs.prims[CHOOSE i \in ps : TRUE].g))

\* multiply entry with number x (or its inverse) onto M from one side
Onto(cs, pr, M, x, left, inverse) ==
  LET e == cs.ents[x] IN
  IF cs.exact
  THEN LET U0 == MatExact(cs, e, pr[x])
           U == IF inverse THEN Canon(Dagger(U0)) ELSE U0
       IN Canon(IF left THEN LeftApply(U, e.q, cs.nq, M) ELSE RightApply(M, U, e.q, cs.nq))
  ELSE LET U == IF inverse THEN Dagger(e.m) ELSE e.m
       IN IF left THEN FMMul(U, M) ELSE FMMul(M, U)
Ident(cs) == IF cs.exact THEN IdM(Pow2(cs.nq)) ELSE FId(Pow2(cs.nq))
RECURSIVE ProdK(_, _, _, _)
ProdK(cs, pr, es, j) == IF j = 0 THEN Ident(cs) ELSE Onto(cs, pr, ProdK(cs, pr, es, j - 1), es[j], TRUE, FALSE)

Reversed2(z) == [i \in 1..Len(z) |-> z[Len(z) + 1 - i]]

\* product after an explained edit
RECURSIVE Fold(_, _, _, _, _, _, _)
Fold(cs, pr, M, blk, j, left, inverse) ==
  IF j > Len(blk) THEN M
  ELSE Fold(cs, pr, Onto(cs, pr, M, blk[j], left, inverse), blk, j + 1, left, inverse)
Moved(cs, pr, M, es, et, a) ==
  CASE a = "none" -> M
    [] a = "AF" -> Fold(cs, pr, M, Reversed2(Added(es, et, cs.b, a)), 1, FALSE, FALSE)
    [] a = "AL" -> Fold(cs, pr, M, Added(es, et, cs.b, a), 1, TRUE, FALSE)
    [] a = "RF" -> Fold(cs, pr, M, SubSeq(es, 1, Len(es) - Len(et)), 1, FALSE, TRUE)
    [] a = "RL" -> Fold(cs, pr, M, Reversed2(SubSeq(es, Len(et) + 1, Len(es))), 1, TRUE, TRUE)

\* Is cost9 (in 1e-9) the distance between A and the aim T, exactly?
\*   (1 - cost) d = |tr(T^ A)| / sqrt(nA nT)
ExactCost(A, T, cost9, tol) ==
  LET N  == Norm2(Overlap(T, A))
      dd == BMul(BMul(BOf(Scale2(A)), BOf(Scale2(T))), BOf(Dim(A) * Dim(A)))
      lo == IF 1000000000 - cost9 - tol < 0 THEN 0 ELSE 1000000000 - cost9 - tol
      hi == 1000000000 - cost9 + tol
      NN == BMul(BOf(N), BSq(1000000000))
  IN BLeq(BMul(BSq(lo), dd), NN) /\ BLeq(NN, BMul(BSq(hi), dd))
CostOk(cs, A, T, cost9) ==
  IF cs.exact THEN ExactCost(A, T, cost9, 5)
  ELSE IAbs((S - FOverlap(T, A)) - RDiv(cost9, 50000)) <= cs.ftol
\* overlap of A with T is clearly at least / clearly below thr9
ExactMet(A, T, thr9, slack) ==
  LET N  == Norm2(Overlap(T, A))
      dd == BMul(BMul(BOf(Scale2(A)), BOf(Scale2(T))), BOf(Dim(A) * Dim(A)))
      th == IF thr9 + slack < 0 THEN 0 ELSE thr9 + slack
  IN BLeq(BMul(BSq(th), dd), BMul(BOf(N), BSq(1000000000)))
Met(cs, A, T, cost9, slack) ==
  IF cs.exact THEN ExactMet(A, T, cs.thr, slack)
  ELSE 1000000000 - cost9 >= cs.thr + slack

\* the entries of a block can be shared out among the primitives so that each
\* gets its count (Hall's condition; an entry may fit several primitives)
RECURSIVE SumOf(_, _, _)
SumOf(counts, I, i) == IF i = 0 THEN 0
  ELSE SumOf(counts, I, i - 1) + (IF i \in I THEN counts[i] ELSE 0)
IsLayerOf(cs, pr, blk) ==
  LET n == Len(cs.counts) IN
  /\ Len(blk) = SumOf(cs.counts, 1..n, n)
  /\ \A I \in SUBSET (1..n) :
       CountIn(blk, LAMBDA x : pr[x] \subseteq I) <= SumOf(cs.counts, I, n)

Aim(cs, pr) ==
  IF cs.rav THEN LET P == ProdK(cs, pr, cs.prefix, Len(cs.prefix)) IN
                 IF cs.exact THEN Canon(Dagger(P)) ELSE Dagger(P)
  ELSE IF cs.exact THEN
         LET F[j \in 0..Len(cs.target)] ==
               IF j = 0 THEN IdM(Pow2(cs.nq))
               ELSE Canon(LeftApply(GateMat(cs.target[j].g), cs.target[j].q, cs.nq, F[j - 1]))
         IN F[Len(cs.target)]
  ELSE cs.tf

\* the searched part of a returned sequence
Starts(es, pre) == Len(es) >= Len(pre) /\ SubSeq(es, 1, Len(pre)) = pre
Rest(cs, es) == SubSeq(es, Len(cs.prefix) + 1, Len(es))

\* beta at step j in units of 1/10 (rate in 1/10000), never above 200000
Beta10(cs, j) == LET b == IF cs.rate >= 10000000 THEN cs.cap * 10 ELSE (cs.rate * j) \div 1000
                     x == IF b > cs.cap * 10 THEN cs.cap * 10 ELSE b
                 IN IF x > 200000 THEN 200000 ELSE x

\* C03: can any proposal from here be refused?  Only one that increases the
\* cost (all proposals are enumerated; used for small sets of fixed gates).
QLists(cs, p) == IF p.any THEN {q \in [1..p.w -> 0..(cs.nq - 1)] : NoRepeat(q)}
                 ELSE {p.allowed[i] : i \in 1..Len(p.allowed)}
Worse(A2, A, T) ==        \* |tr(T^A2)|^2/n(A2) < |tr(T^A)|^2/n(A)
  ~BLeq(BMul(BOf(Norm2(Overlap(T, A))), BOf(Scale2(A2))),
        BMul(BOf(Norm2(Overlap(T, A2))), BOf(Scale2(A))))
Refusable(cs, A, T, es) ==
  \/ es = <<>> /\ cs.app < 1000000              \* nothing to remove: no change
  \/ /\ cs.app > 0
     /\ \E i \in {x \in 1..Len(cs.prims) : cs.prims[x].weight > 0} :
          \E q \in QLists(cs, cs.prims[i]) :
            LET U == GateMat(cs.prims[i].g) IN
            \/ Worse(Canon(LeftApply(U, q, cs.nq, A)), A, T)
            \/ Worse(Canon(RightApply(A, U, q, cs.nq)), A, T)
  \/ /\ cs.app < 1000000 /\ es # <<>>
     /\ \/ Worse(Onto(cs, prims, A, es[1], FALSE, TRUE), A, T)
        \/ Worse(Onto(cs, prims, A, es[Len(es)], TRUE, TRUE), A, T)

----------------------------------------------------------------------------
\* one clause = <<name, holds>>; judged lazily in this order
Bad(list) == LET I == {i \in 1..Len(list) : ~list[i][2]} IN
             [i \in 1..Cardinality(I) |->
               list[CHOOSE x \in I : Cardinality({y \in I : y < x}) = i - 1][1]]

RavName(cs, x) == (IF cs.layered THEN "C13." ELSE "C12.") \o x
\* freshly drawn values of continuous parameters do not come up again
Distinct(cs, es) == LET I == {i \in 1..Len(es) : cs.ents[es[i]].cf # <<>>} IN
  Cardinality({cs.ents[es[i]].cf : i \in I}) = Cardinality(I)
AgainName(cs) == IF cs.rav THEN RavName(cs, "again") ELSE IF cs.layered THEN "C13.again" ELSE "C04.again"
EntryBad(cs, pr, es) == \E i \in 1..Len(es) : pr[es[i]] = {}

JudgeFirst(cs, pr, A, T) ==
  LET es == cs.states[1]
      co == cs.costs[1]
  IN Bad(<< <<"C01.limit", co = <<>>>>,
            <<"C01.empty", Rest(cs, es) = <<>>>>,
            <<RavName(cs, "prefix"), Starts(es, cs.prefix)>>,
            <<RavName(cs, "length"), cs.rav => Len(cs.prefix) = cs.preblocks * cs.b>>,
            <<"C02.start", CostOk(cs, A, T, cs.start)>>,
            <<"C13.layers", cs.layered => InBlocks(cs.prefix, cs.b, LAMBDA z : IsLayerOf(cs, pr, z))>>,
            <<AgainName(cs), Distinct(cs, es)>>,
            <<"C04.entry", ~EntryBad(cs, pr, es)>> >>)

\* the cost list up to n already shows that the threshold was met
MetByCost(cs, x) == \/ 1000000000 - x >= cs.thr + 25
                    \/ cs.thr >= 1000000000 /\ x <= 1
\* a kept increase from x to y at step n is not all but impossible
Plausible(cs, x, y, n) ==
  LET d4 == (y - x) \div 100000                   \* increase in 1e-4
  IN d4 <= 0 \/ Beta10(cs, n) * d4 <= 4500000

\* One more step (a: edits that explain it).  j: state, A: product before,
\* A2: product after it
JudgeStep(cs, pr, j, A, A2, T, a) ==
  LET es  == Rest(cs, cs.states[j - 1])
      et  == Rest(cs, cs.states[j])
      co  == cs.costs[j]
      n   == Len(co)
      c0  == IF n = 1 THEN cs.start ELSE co[n - 1]
      c1  == co[n]
      chg == et # es
  IN
  IF a = {} THEN <<"C03.edit">> ELSE
  Bad(<<
     <<"C01.met", ~Met(cs, A, T, c0, IF cs.exact THEN 0 ELSE 25) /\ ~MetByCost(cs, c0)>>,
     <<"C01.zero", cs.thr > 0>>,
     <<"C02.range", c1 >= 0 /\ c1 <= 1000000000>>,
     <<"C02.value", CostOk(cs, A2, T, c1)>>,
     <<"C02.fresh", IAbs(c1 - cs.fresh[j]) <= 3>>,
     <<"C02.repeat", ~chg => IAbs(c1 - c0) <= 3>>,
     <<"C03.worse", chg => Plausible(cs, c0, c1, n)>>,
     <<"C03.rate0", ~chg /\ cs.rate = 0 => es = <<>> /\ cs.app < 1000000>>,
     <<"C03.onlyappend", cs.app = 1000000 => a \cap {"none", "AF", "AL"} # {}>>,
     <<"C03.onlyremove", cs.app = 0 => a \cap {"none", "RF", "RL"} # {}>>,
     <<"C03.refused", ~chg /\ cs.enum => Refusable(cs, A, T, es)>> >>)

\* several steps at once
JudgeJump(cs, pr, j, A2, T) ==
  LET co  == cs.costs[j]
      n   == Len(co)
      m   == Len(cs.costs[j - 1])
  IN
  Bad(<<
     <<"C01.met", \A i \in (m + 1)..(n - 1) : ~MetByCost(cs, co[i])>>,
     <<"C01.zero", cs.thr > 0>>,
     <<"C02.range", \A i \in (m + 1)..n : co[i] >= 0 /\ co[i] <= 1000000000>>,
     <<"C02.value", CostOk(cs, A2, T, co[n])>>,
     <<"C02.fresh", IAbs(co[n] - cs.fresh[j]) <= 3>>,
     <<"C03.worse", \A i \in (m + 2)..n : Plausible(cs, co[i - 1], co[i], i)>> >>)

Common(cs, pr, j, A2, T) ==
  LET es == Rest(cs, cs.states[j - 1])
      et == Rest(cs, cs.states[j])
      n  == Len(cs.costs[j])
  IN
  Bad(<<
     <<"C01.stop", n < cs.lims[j] => Met(cs, A2, T, cs.fresh[j], -25)>>,
     <<"C01.same", n = Len(cs.costs[j - 1]) => es = et>>,
     <<RavName(cs, "close"), cs.rav /\ n < cs.lims[j] /\ n > 0 => 1000000000 - cs.whole[j] >= cs.thr - 25>>,
     <<RavName(cs, "cost"), cs.rav /\ n > 0 => IAbs(cs.whole[j] - cs.costs[j][n]) <= 3>>,
     <<"C04.entry", ~EntryBad(cs, pr, cs.states[j])>>,
     <<"C02.kept", j = Len(cs.states) =>
         \A i \in 1..j : cs.again[i] = <<cs.states[i], cs.costs[i]>>>>,
     <<AgainName(cs), Distinct(cs, cs.states[j])>>,
     <<"C13.layers", cs.layered => InBlocks(et, cs.b, LAMBDA z : IsLayerOf(cs, pr, z))>> >>)

Judge(cs, pr, j, A, A2, T, a) ==
  LET co == cs.costs[j]
      pc == cs.costs[j - 1]
  IN IF Len(co) > cs.lims[j] THEN <<"C01.limit">>
     ELSE IF Len(co) < Len(pc) \/ SubSeq(co, 1, Len(pc)) # pc THEN <<"C19.prefix">>
     ELSE (IF Len(co) = Len(pc) THEN <<>>
           ELSE IF Len(co) = Len(pc) + 1 THEN JudgeStep(cs, pr, j, A, A2, T, a)
           ELSE JudgeJump(cs, pr, j, A2, T)) \o Common(cs, pr, j, A2, T)

Init == /\ c \in 1..Len(Cases)
        /\ k = 0 /\ prod = <<>> /\ base = <<>> /\ prims = <<>> /\ fails = <<>>

First ==
  /\ k = 0
  /\ \E pr \in {TLCEval([x \in 1..Len(K(c).ents) |->
           TLCEval({i \in 1..Len(K(c).prims) : InstanceOf(K(c), K(c).prims[i], K(c).ents[x])})])} :
     LET cs == K(c)
         known == \A x \in 1..Len(cs.ents) : pr[x] # {}
     IN /\ prims' = pr
        /\ prod' = Ident(cs)
        /\ IF known THEN /\ base' = TLCEval(Aim(cs, pr))
                         /\ fails' = JudgeFirst(cs, pr, prod', base')
                         /\ k' = IF fails' = <<>> THEN 1 ELSE -1
           ELSE base' = <<>> /\ fails' = <<"C04.entry">> /\ k' = -1
  /\ UNCHANGED c

Step ==
  /\ k >= 1 /\ k < Len(K(c).states)
  /\ LET cs == K(c)
         j == k + 1
         es == Rest(cs, cs.states[k])
         et == Rest(cs, cs.states[j])
         pre == Starts(cs.states[j], cs.prefix)
         grown == Len(cs.costs[j]) - Len(cs.costs[k])
         a == IF pre /\ grown \in {0, 1} THEN Edits(es, et, cs.b) ELSE {}
     IN \E A2 \in {IF a # {} THEN TLCEval(Moved(cs, prims, prod, es, et, CHOOSE x \in a : TRUE))
                   ELSE IF pre /\ grown > 1 THEN TLCEval(ProdK(cs, prims, et, Len(et)))
                   ELSE prod} :
        /\ prod' = A2
        /\ fails' = IF pre THEN TLCEval(Judge(cs, prims, j, prod, A2, base, a)) ELSE <<RavName(cs, "prefix")>>
        /\ k' = IF fails' = <<>> THEN j ELSE -j
  /\ UNCHANGED <<c, base, prims>>

Next == First \/ Step
Spec == Init /\ [][Next]_vars

\* total verdict, one line per case
Done == k < 0 \/ (k >= 1 /\ k = Len(K(c).states))
Verdict == Done => PrintT("@@" \o ToJson([case |-> c, at |-> k, fails |-> fails]))
=============================================================================
