---- MODULE Bitset ----
(* N independent bits. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N
VARIABLES b, ret
vars == <<b, ret>>
Zero == [i \in 1..N |-> 0]
Done(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
Init == b = Zero /\ ret = [op |-> "init", a |-> <<>>, r |-> 0]
Reset == b' = Zero /\ Done("reset", <<>>, 0)
SetBit(i, v) == i < N /\ b' = [b EXCEPT ![i + 1] = IF v = 0 THEN 0 ELSE 1] /\ Done("set", <<i, v>>, 0)
Clear == b' = Zero /\ Done("clear", <<>>, 0)
Do(op, a) == CASE op = "set" -> SetBit(a[1], a[2]) [] op = "clear" -> Clear
Obs == <<N, b>>
Next == (\E i \in 0..(N - 1), v \in {0, 1, 256} : SetBit(i, v)) \/ Clear
Spec == Init /\ [][Next]_vars
View == b
Emit == PrintT("E" \o ToJson(<<ToString(View), ret'.op, ret'.a, ret'.r, Obs', ToString(View')>>))
OneBit == [][ret'.op = "set" => \A i \in 1..N : i # ret'.a[1] + 1 => b'[i] = b[i]]_vars
====
