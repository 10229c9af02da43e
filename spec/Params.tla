------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* Evaluating a parameterised unitary (ParameterizedUnitary.as_unitary):   *)
(* accepted exactly if there is one value per parameter and every value is *)
(* in that parameter's closed range.  A value is <<v, e>>: the number v    *)
(* moved e smallest steps up (e is -1, 0 or 1); <<9, 0>> is "not a         *)
(* number", which lies in no range.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Ranges,    \* tuple of <<low, high, angle?>>
          Values     \* set of values
VARIABLES req, acc, dict
vars == <<req, acc, dict>>

NaN == <<9, 0>>
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
In(v, r) == v # NaN /\ Leq(<<r[1], 0>>, v) /\ Leq(v, <<r[2], 0>>)
Shown(vs) == [k \in 1..Len(Ranges) |-> [name |-> k, value |-> vs[k], angle |-> Ranges[k][3]]]

Init == req = <<>> /\ acc = FALSE /\ dict = <<>>
Give(v) == Len(req) <= Len(Ranges) /\ req' = Append(req, v)
Judge(vs) == Len(vs) = Len(Ranges) /\ \A k \in 1..Len(Ranges) : In(vs[k], Ranges[k])
Next == \E v \in Values : Give(v) /\ acc' = Judge(req') /\ dict' = IF acc' THEN Shown(req') ELSE <<>>
Spec == Init /\ [][Next]_vars

\* accepting everything in range and nothing else
Ends_In == \A k \in 1..Len(Ranges) : In(<<Ranges[k][1], 0>>, Ranges[k]) /\ In(<<Ranges[k][2], 0>>, Ranges[k])
Beyond_Out == \A k \in 1..Len(Ranges) : ~In(<<Ranges[k][1], -1>>, Ranges[k]) /\ ~In(<<Ranges[k][2], 1>>, Ranges[k])
Dict_Matches == acc => Len(dict) = Len(req) /\ \A k \in 1..Len(req) : dict[k].value = req[k] /\ dict[k].name = k
Tell == req # <<>> => PrintT("@@" \o ToJson([req |-> req, ok |-> acc, dict |-> dict]))
=============================================================================
