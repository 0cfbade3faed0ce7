---- MODULE Holds ----
(* What the library holds on behalf of its objects.  Objects of many kinds are made,
   used and destroyed in any order under an allocator that keeps account.  Whatever
   happens, nothing is ever given back that is not held, or with another size than
   it was obtained with (bad), no memory is taken from or given to the C library
   behind the allocator's back (foreign), and with no object alive nothing is held. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NOBJ, Kinds, Single, Ways, MCMax
VARIABLES live, ret
vars == <<live, ret>>
Say(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
None == [i \in 1..NOBJ |-> 0]
Init == live = None /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == live' = None /\ Say("reset", <<>>, <<>>)
Fine == <<0, 0>>
Do(op, a) ==
    CASE op = "new" -> live[a[1]] = 0 /\ a[2] \in Kinds /\ (a[2] \in Single => \A i \in 1..NOBJ : live[i] # a[2]) /\ live' = [live EXCEPT ![a[1]] = a[2]] /\ Say(op, a, Fine)
      [] op = "use" -> live[a[1]] # 0 /\ UNCHANGED live /\ Say(op, a, Fine)
      [] op = "drop" -> live[a[1]] # 0 /\ live' = [live EXCEPT ![a[1]] = 0] /\ Say(op, a, Fine)
      [] OTHER -> FALSE
(* what is held: nothing when nothing lives; otherwise that is the library's own affair *)
Obs == <<IF live = None THEN 0 ELSE -1>>
Next == \/ \E i \in 1..NOBJ, k \in Kinds : Cardinality({j \in 1..NOBJ : live[j] # 0}) < MCMax /\ Do("new", <<i, k>>)
        \/ \E i \in 1..NOBJ : Do("drop", <<i>>) \/ \E w \in Ways : Do("use", <<i, w>>)
Spec == Init /\ [][Next]_vars
View == live
Emit == PrintT("E" \o ToJson(<<ToString(View), ret'.op, ret'.a, ret'.r, Obs', ToString(View')>>))
OnlyOne == \A i, j \in 1..NOBJ : i # j /\ live[i] = live[j] => live[i] \notin Single
====
