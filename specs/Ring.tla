---- MODULE Ring ----
(* A bounded FIFO queue of the given capacity.  rot counts removals modulo the
   capacity, so that every rotation offset is a distinct explored state. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cap, MCVals
VARIABLES q, rot, ret
vars == <<q, rot, ret>>
Done(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
Init == q = <<>> /\ rot = 0 /\ ret = [op |-> "init", a |-> <<>>, r |-> 0]
Reset == q' = <<>> /\ rot' = 0 /\ Done("reset", <<>>, 0)
Add(v) == IF Len(q) < Cap
          THEN q' = Append(q, v) /\ UNCHANGED rot /\ Done("add", <<v>>, 0)
          ELSE UNCHANGED <<q, rot>> /\ Done("add", <<v>>, -1)
Pop == IF q = <<>> THEN UNCHANGED <<q, rot>> /\ Done("pop", <<>>, 0)
       ELSE q' = Tail(q) /\ rot' = (rot + 1) % Cap /\ Done("pop", <<>>, Head(q))
Peek == UNCHANGED <<q, rot>> /\ Done("peek", <<>>, IF q = <<>> THEN 0 ELSE Head(q))
Do(op, a) == CASE op = "add" -> Add(a[1]) [] op = "pop" -> Pop [] op = "peek" -> Peek
Obs == <<IF q = <<>> THEN 1 ELSE 0, IF Len(q) = Cap THEN 1 ELSE 0>>
Next == (\E v \in MCVals : Add(v)) \/ Pop \/ Peek
Spec == Init /\ [][Next]_vars
View == <<q, rot>>
Emit == PrintT("E" \o ToJson(<<ToString(View), ret'.op, ret'.a, ret'.r, Obs', ToString(View')>>))
Bounded == Len(q) <= Cap
(* an element never overtakes another *)
Fifo == [][q' = q \/ (q # <<>> /\ q' = Tail(q)) \/ (q' # <<>> /\ SubSeq(q', 1, Len(q') - 1) = q) \/ ret'.op = "reset"]_vars
====
