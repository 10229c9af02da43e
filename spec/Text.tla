-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* The text of a sequence: a header and one line per entry.  Numbers are   *)
(* decimals: [s |-> negative?, i |-> integer part, f |-> fraction with     *)
(* nine digits]; angles are given in units of pi (p) and plainly (d).      *)
(* Placeholders: {pi} and {dagger}.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Randomization

CONSTANTS Voc,       \* tuple of [name, pars, q, n]: pars a tuple of
                     \* [n |-> name, angle |-> BOOLEAN, p |-> number, d |-> number]
          MaxLen, MaxOps

RECURSIVE P10(_)
P10(k) == IF k = 0 THEN 1 ELSE 10 * P10(k - 1)
\* rounded to k digits: <<integer part, k-digit fraction>>
Round(x, k) ==
  LET u == P10(9 - k)
      f == (x.f + u \div 2) \div u
  IN IF f = P10(k) THEN <<x.i + 1, 0>> ELSE <<x.i, f>>
RECURSIVE Pad(_, _)
Pad(f, k) == IF k = 0 THEN "" ELSE Pad(f \div 10, k - 1) \o ToString(f % 10)
RECURSIVE Strip(_, _)
Strip(f, k) == IF k > 1 /\ f % 10 = 0 THEN Strip(f \div 10, k - 1) ELSE Pad(f, k)
Num(x, k) ==
  LET r == Round(x, k)
  IN (IF x.s /\ (r[1] # 0 \/ r[2] # 0) THEN "-" ELSE "") \o ToString(r[1]) \o "." \o Strip(r[2], k)

RECURSIVE Join(_, _, _)
Join(xs, sep, k) == IF k = 0 THEN "" ELSE IF k = 1 THEN xs[1] ELSE Join(xs, sep, k - 1) \o sep \o xs[k]
JoinAll(xs, sep) == Join(xs, sep, Len(xs))
Each(xs, F(_)) == [j \in 1..Len(xs) |-> F(xs[j])]
Qubits(v) == Each(v.q, LAMBDA q : "q[" \o ToString(q) \o "]")

Qasm(v) ==
  v.name
  \o (IF v.pars = <<>> THEN "" ELSE "(" \o JoinAll(Each(v.pars, LAMBDA p :
        IF p.angle THEN "pi*" \o Num(p.p, 7) ELSE Num(p.d, 7)), ",") \o ")")
  \o " " \o JoinAll(Qubits(v), ",") \o ";"
Jaqal(v) ==
  v.name \o " " \o JoinAll(Qubits(v), " ")
  \o (IF v.pars = <<>> THEN "" ELSE " " \o JoinAll(Each(v.pars, LAMBDA p : Num(p.d, 7)), " "))
Display(v, inv) ==
  v.name
  \o (IF v.shown THEN "[" \o JoinAll(Each(v.q, LAMBDA q : ToString(q)), ", ") \o "]" ELSE "")
  \o (IF v.pars = <<>> THEN "" ELSE "(" \o JoinAll(Each(v.pars, LAMBDA p :
        p.n \o "=" \o (IF p.angle THEN Num(p.p, 3) \o "{pi}" ELSE Num(p.d, 4))), ", ") \o ")")
  \o (IF inv THEN "{dagger}" ELSE "")

----------------------------------------------------------------------------
\* sequences of entries v (or -v, inverted), with one level of undo
VARIABLES es, saved, hist
vars == <<es, saved, hist>>
Init == es = <<>> /\ saved = <<>> /\ hist = <<>>
Ents == {v : v \in 1..Len(Voc)} \cup {-v : v \in 1..Len(Voc)}
Rev(s) == [j \in 1..Len(s) |-> -s[Len(s) + 1 - j]]
Op(o) ==
  /\ Len(hist) < MaxOps
  /\ CASE o.k = "last" -> Len(es) < MaxLen /\ es' = Append(es, o.v) /\ saved' = <<es>>
       [] o.k = "first" -> Len(es) < MaxLen /\ es' = <<o.v>> \o es /\ saved' = <<es>>
       [] o.k = "lastN" -> Len(es) < MaxLen /\ es' = Append(es, o.v) /\ saved' = saved
       [] o.k = "firstN" -> Len(es) < MaxLen /\ es' = <<o.v>> \o es /\ saved' = saved
       [] o.k = "remf" -> es # <<>> /\ es' = Tail(es) /\ saved' = <<es>>
       [] o.k = "reml" -> es # <<>> /\ es' = SubSeq(es, 1, Len(es) - 1) /\ saved' = <<es>>
       \* many copies at once
       [] o.k = "many" -> Len(es) < MaxLen /\ es' = es \o [j \in 1..o.n |-> o.v] /\ saved' = <<es>>
       [] o.k = "undo" -> saved # <<>> /\ es' = saved[1] /\ saved' = <<>>
       [] o.k = "inv" -> es' = Rev(es) /\ saved' = <<>>
       [] o.k = "rebuild" -> es' = es /\ saved' = <<>>
       [] o.k = "twice" -> 2 * Len(es) <= MaxLen /\ es' = es \o es /\ saved' = <<>>
       [] o.k = "show" -> es' = es /\ saved' = saved
       [] o.k = "prod" -> es' = es /\ saved' = saved
  /\ hist' = Append(hist, [k |-> o.k, v |-> o.v, n |-> o.n, es |-> es'])
Next == \E o \in [k : {"last", "first", "lastN", "firstN"}, v : Ents, n : {1}]
              \cup [k : {"remf", "reml", "undo", "inv", "rebuild", "twice", "show", "prod"}, v : {0}, n : {1}]
              \cup [k : {"many"}, v : RandomSubset(2, Ents), n : RandomSubset(1, 20..200)] : Op(o)
Spec == Init /\ [][Next]_vars

Text(F(_)) == [j \in 1..Len(es) |-> F(es[j])]
A(v) == IF v < 0 THEN -v ELSE v
\* inverting twice restores the text; one line per entry
Twice_Inverted == Rev(Rev(es)) = es
Lines == Len(Text(LAMBDA v : Qasm(Voc[A(v)]))) = Len(es)
Tell == Len(hist) = MaxOps => PrintT("@@" \o ToJson([hist |-> hist]))
Vocab == hist = <<>> => PrintT("@@" \o ToJson([voc |-> [v \in 1..Len(Voc) |->
   [qasm |-> Qasm(Voc[v]), jaqal |-> Jaqal(Voc[v]), show |-> Display(Voc[v], FALSE),
    inv |-> Display(Voc[v], TRUE)]]]))
=============================================================================
