------------------------------- MODULE Refuse -------------------------------
(***************************************************************************)
(* Requests that construct or combine values, with the verdict whether     *)
(* they make sense.  Refused requests leave all values as they were.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxQ, MaxW

Tuples(S, lo, hi) == UNION {[1..k -> S] : k \in lo..hi}
Range(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == Cardinality(Range(s)) = Len(s)
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)

\* a matrix for a unitary of dimension d
Shapes == {"unitary", "scaled", "shear", "rank", "unit-rows", "ortho-rows", "off", "off-little", "nan",
           "tail-shear", "head-shear", "mid-phase"}
UnitaryReq == [k : {"unitary"}, d : 1..4, r : 1..4, c : 1..4, s : Shapes]
              \cup [k : {"unitary"}, d : {8, 16}, r : {8, 16}, c : {8, 16}, s : Shapes]
              \cup [k : {"unitary"}, d : {32, 64}, r : {32, 64}, c : {32, 64}, s : Shapes]
UnitaryOk(q) == q.r = q.d /\ q.c = q.d /\ q.s = "unitary"
UnitarySane(q) == q.d = 1 \/ q.r = 1 \/ q.c = 1 => q.s \in {"unitary", "scaled", "off-little", "nan"}
\* placing a gate of w qubits
EntryReq == [k : {"entry"}, w : 1..MaxW, q : Tuples(-2..MaxQ, 1, MaxW + 1)]
EntryOk(q) == Len(q.q) = q.w /\ Distinct(q.q) /\ \A x \in Range(q.q) : x >= 0
\* a primitive with two allowed lists, one of which is given
PrimReq == [k : {"prim"}, w : 1..2, q : Tuples(-1..2, 1, 3), at : 1..3]
\* an entry for a system of n qubits, by several routes
FitReq == [k : {"fit"}, n : 1..3, q : {s \in Tuples(0..4, 1, 3) : Distinct(s)},
           how : {"only", "first", "middle", "last", "late", "append_first", "append_last", "expand",
                  "long_first", "long_last"}]
          \cup [k : {"fit"}, n : {4, 5, 6}, q : {s \in Tuples({0, 3, 4, 5, 6}, 1, 3) : Distinct(s)},
                how : {"last", "append_first", "append_last", "expand"}]
FitOk(q) == \A x \in Range(q.q) : x < q.n
\* values of different sizes
SizesReq == [k : {"combine"}, n : Tuples(1..3, 1, 3)]
            \cup [k : {"left", "right", "distance", "distance-array", "close", "close-t", "target", "target-layered",
                       "combine-cls"}, n : Tuples(1..3, 2, 2)]
            \cup [k : {"terms"}, n : Tuples(1..3, 1, 4)]
            \* sequences with e[i] entries each
            \cup UNION {[k : {"combine-some"}, n : [1..j -> 1..2], e : [1..j -> 0..1]] : j \in 1..4}
            \cup [k : {"combine-some"}, n : [1..3 -> 1..3], e : [1..3 -> {0, 2}]]
SizesOk(q) == Cardinality(Range(q.n)) = 1
\* a primitive of w qubits for a system of n
RoomReq == [k : {"compiler", "layered", "rav", "layered-rav", "xeb"}, n : 1..3, w : 1..4, at : 1..5,
            \* placements allowed for it: all, none, one
            l : {"all", "none", "one"}]
RoomOk(q) == q.w <= q.n
\* allowed lists of a primitive beyond the system: refused or never drawn
\* Hamiltonian terms
TermReq == [k : {"term"}, r : {8, 16, 32}, c : {8, 16, 32}, s : {"hermitian", "anti", "one-off", "one-off-little", "complex-diagonal"}]
           \cup [k : {"term"}, r : 1..4, c : 1..4, s : {"level", "hermitian", "anti", "complex-symmetric", "one-off", "one-off-little", "complex-diagonal"}]
           \cup [k : {"evolution", "param-evolution"}, r : 1..4, c : {0}, s : {"hermitian", "anti", "complex-symmetric", "one-off", "one-off-little", "complex-diagonal"}]
TermOk(q) == q.s \in {"hermitian", "level"} /\ (q.c = 0 \/ q.r = q.c)
TermSane(q) == q.r = 1 => q.s \notin {"complex-symmetric", "one-off", "one-off-little"}

Reqs == {q \in UnitaryReq : UnitarySane(q)} \cup EntryReq \cup PrimReq \cup FitReq \cup SizesReq
        \cup {q \in RoomReq : q.l # "all" => q.w > q.n}
        \cup {q \in TermReq : TermSane(q)}
Ok(q) == CASE q.k = "unitary" -> UnitaryOk(q)
           [] q.k \in {"entry", "prim"} -> EntryOk(q)
           [] q.k = "fit" -> FitOk(q)
           [] q.k \in {"combine", "combine-some", "combine-cls", "left", "right", "distance", "distance-array", "close", "close-t",
                       "target", "target-layered", "terms"} -> SizesOk(q)
           [] q.k \in {"compiler", "layered", "rav", "layered-rav", "xeb"} -> RoomOk(q)
           [] q.k \in {"term", "evolution", "param-evolution"} -> TermOk(q)

VARIABLE req
Init == req \in Reqs
Next == UNCHANGED req
Spec == Init /\ [][Next]_req
Tell == PrintT("@@" \o ToJson([q |-> req, ok |-> Ok(req)]))
=============================================================================
