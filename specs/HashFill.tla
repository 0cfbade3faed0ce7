---- MODULE HashFill ----
(* Hash tables that hold many entries.  ord: the keys in the order in which they
   were added; key k has the value k + 1.  Operations work on the keys a, a + s,
   a + 2s ... below b.  Whatever the table's size, every key that was added and not
   removed is found, by every kind of lookup, and by the iterator in this order. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MCMax
VARIABLES ord, ret
vars == <<ord, ret>>
Init == ord = <<>> /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == ord' = <<>> /\ ret' = [op |-> "reset", a |-> <<>>, r |-> <<>>]
Done(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
In(k, a) == k >= a[1] /\ k < a[2] /\ (k - a[1]) % a[3] = 0
Count(a) == IF a[2] <= a[1] THEN 0 ELSE (a[2] - a[1] - 1) \div a[3] + 1
Keys(a) == [i \in 1..Count(a) |-> a[1] + (i - 1) * a[3]]
Has == {ord[i] : i \in 1..Len(ord)}
Fill(op, a) == LET h == Has new == IF ord = <<>> THEN Keys(a) ELSE SelectSeq(Keys(a), LAMBDA k : k \notin h)
               IN ord' = ord \o new /\ Done(op, a, <<Len(new)>>)
Drain(op, a) == LET kept == SelectSeq(ord, LAMBDA k : ~In(k, a))
                IN ord' = kept /\ Done(op, a, <<Len(ord) - Len(kept)>>)
Do(op, a) ==
    CASE op \in {"put", "put0", "goc"} -> Fill(op, a)
      [] op \in {"del", "dele", "map"} -> Drain(op, a)
      [] op = "clear" -> ord' = <<>> /\ Done(op, a, <<>>)
      [] op = "ensure" -> UNCHANGED ord /\ Done(op, a, <<>>)
      [] OTHER -> FALSE
(* size; iteration; lookups (of these keys and of others) that disagree with it *)
Obs == <<Len(ord), ord, 0>>
Ranges == {<<a, b, s>> \in (0..MCMax) \X (0..MCMax) \X (1..2) : a < b}
Next == \E a \in Ranges, o \in {"put", "del", "ensure"} : Do(o, a)
Spec == Init /\ [][Next]_vars
View == ord
Emit == PrintT("E" \o ToJson(<<ToString(View), ret'.op, ret'.a, ret'.r, Obs', ToString(View')>>))
(* no key twice; what an operation adds comes last, and what it leaves keeps its order *)
Once == Cardinality(Has) = Len(ord)
Stable == [][ret'.op = "put" => SubSeq(ord', 1, Len(ord)) = ord]_vars
Exact == [][/\ ret'.op = "put" => {ord'[i] : i \in DOMAIN ord'} = Has \cup {k \in 0..MCMax : In(k, ret'.a)}
            /\ ret'.op = "del" => {ord'[i] : i \in DOMAIN ord'} = Has \ {k \in 0..MCMax : In(k, ret'.a)}]_vars
====
