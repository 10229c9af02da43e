------------------------------ MODULE Algebra ------------------------------
(***************************************************************************)
(* A growing pool of unitary values (class Unitary), each made from a      *)
(* matrix or from earlier values; values never change afterwards.          *)
(* Matrices are exact and projective (Gauss.tla), of any dimension.        *)
(***************************************************************************)
EXTENDS GateLib, Big, Json, Randomization

CONSTANTS Start,     \* tuple of gates, see Base
          Ops,       \* subset of {"inv", "left", "right", "tensor"}
          MaxDim, MaxNew,
          Pick       \* 0: all operations; k: k random ones (simulation)

\* Householder reflection of a Gaussian integer vector, any dimension
House(v) ==
  LET n == SumC(LAMBDA k : <<Norm2(v[k]), 0>>, Len(v), Zero)[1]
  IN Mat(Len(v), LAMBDA r, c :
       LET z == Mul(v[r], Conj(v[c]))
           w == <<-2 * z[1], -2 * z[2]>>
       IN IF r = c THEN Add(w, <<n, 0>>) ELSE w)
\* permutation p of 1..d times powers of i
Mono(p, e) == Mat(Len(p), LAMBDA r, c :
   IF p[r] # c THEN Zero ELSE
   CASE e[r] % 4 = 0 -> One [] e[r] % 4 = 1 -> <<0, 1>> [] e[r] % 4 = 2 -> <<-1, 0>> [] e[r] % 4 = 3 -> <<0, -1>>)
Base(g) == Canon(CASE g[1] = "house" -> House(g[2])
                   [] g[1] = "mono" -> Mono(g[2], g[3])
                   [] g[1] \notin {"house", "mono"} -> GateMat(g))
StartM == TLCEval([j \in 1..Len(Start) |-> Base(Start[j])])

VARIABLES pool, hist
vars == <<pool, hist>>
Init == pool = StartM /\ hist = <<>>

Result(o) ==
  CASE o.k = "inv" -> Dagger(pool[o.i])
    [] o.k = "left" -> MMul(pool[o.j], pool[o.i])       \* left_multiply(factor)
    [] o.k = "right" -> MMul(pool[o.i], pool[o.j])
    [] o.k = "tensor" -> Kron(pool[o.i], pool[o.j])
Same(o) == o.k \in {"inv", "tensor"} \/ Dim(pool[o.i]) = Dim(pool[o.j])
Wanted == [k : Ops \ {"inv"}, i : 1..Len(pool), j : 1..Len(pool)]
          \cup [k : Ops \cap {"inv"}, i : 1..Len(pool), j : {1}]
Do(o) ==
  /\ Len(hist) < MaxNew
  /\ o.k = "tensor" => Dim(pool[o.i]) * Dim(pool[o.j]) <= MaxDim
  /\ Same(o) => Scale2(Canon(Result(o))) <= 2500      \* keeps all numbers small
  /\ hist' = Append(hist, [k |-> o.k, i |-> o.i, j |-> o.j, ok |-> Same(o)])
  /\ pool' = IF Same(o) THEN Append(pool, Canon(Result(o))) ELSE pool
Next == \E o \in (IF Pick = 0 THEN Wanted ELSE RandomSubset(Pick, Wanted)) : Do(o)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Last == pool[Len(pool)]
All_Unitary == IsUnitaryP(Last)
Inverse_Inverts == SameP(MMul(Last, Dagger(Last)), IdM(Dim(Last)))
\* distance: 1 - sqrt(Num / Den); in [0, 1], symmetric, zero iff the same
Num(A, B) == Norm2(Overlap(A, B))
Den(A, B) == Dim(A) * Dim(A) * Scale2(A) * Scale2(B)
Pairs == {p \in (1..Len(pool)) \X {Len(pool)} : Dim(pool[p[1]]) = Dim(Last)}
Distance_Laws ==
  \A p \in Pairs :
    LET A == pool[p[1]]
        B == pool[p[2]] IN
    /\ Num(A, B) = Num(B, A)
    /\ Num(A, B) <= Den(A, B)
    /\ (Num(A, B) = Den(A, B)) <=> SameP(A, B)
    /\ Num(A, B) = Num(Dagger(A), Dagger(B))

\* closeness with the threshold T / 10000:  T^2 Den <= 10^8 Num
Close(A, B, T) == BLeq(BMul(BSq(T), BOf(Den(A, B))), BMul(BSq(10000), BOf(Num(A, B))))
Exact(A, B, T) == BMul(BSq(T), BOf(Den(A, B))) = BMul(BSq(10000), BOf(Num(A, B)))
RECURSIVE Bisect(_, _, _, _)
Bisect(A, B, lo, hi) ==    \* largest T with Close, Close at lo, not at hi
  IF hi - lo = 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN
       IF Close(A, B, m) THEN Bisect(A, B, m, hi) ELSE Bisect(A, B, lo, m)
TMax(A, B) == IF Close(A, B, 10000) THEN 10000 ELSE Bisect(A, B, 0, 10000)
Dist(i, j) ==
  LET A == pool[i]
      B == pool[j]
      T == TMax(A, B)
  IN [i |-> i, j |-> j, num |-> Num(A, B), den |-> Den(A, B), t |-> T, exact |-> Exact(A, B, T)]
RECURSIVE Dists(_, _)
Dists(i, j) ==
  IF i > Len(pool) THEN <<>>
  ELSE IF j > Len(pool) THEN Dists(i + 1, i + 1)
  ELSE (IF Dim(pool[i]) = Dim(pool[j]) /\ (j > Len(pool) - 2 \/ (Pick = 0 /\ hist[1].i # 1)) THEN <<Dist(i, j)>> ELSE <<>>) \o Dists(i, j + 1)
Tell == Len(hist) = MaxNew =>
  PrintT("@@" \o ToJson([hist |-> hist, pool |-> pool, dist |-> Dists(1, 1)]))
=============================================================================
