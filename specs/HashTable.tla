---- MODULE HashTable ----
(* Abstract state and transitions of cork_hash_table (libcork/ds/hash-table.h):
   a finite map from keys to (key object, value) together with the order in
   which the keys were added.  A key object ko carries the key KeyOf(ko), so
   that two distinct objects can be equal keys.  Values are integers, 0 stands
   for NULL.  Hash values do not appear: the behaviour must not depend on them
   (the replay varies the hash function instead). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NKeys,      \* keys are 0..NKeys-1, each with objects 2k and 2k+1
          PtrKeys     \* TRUE: a pointer-keyed table, every object its own key
VARIABLES ord,        \* sequence of key objects currently stored, in insertion order
          val,        \* val[i] = value of the entry ord[i]
          ret         \* the last operation: [op, a, r]
vars == <<ord, val, ret>>

KeyOf(ko) == IF PtrKeys THEN ko ELSE ko \div 2
NDistinct == IF PtrKeys THEN 2 * NKeys ELSE NKeys
Pos(k) == LET S == {i \in 1..Len(ord) : KeyOf(ord[i]) = k}
          IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Drop(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
Done(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]

Init == ord = <<>> /\ val = <<>> /\ ret = [op |-> "init", a |-> <<>>, r |-> 0]
Reset == ord' = <<>> /\ val' = <<>> /\ ret' = [op |-> "reset", a |-> <<>>, r |-> 0]

(* put: overwrite key object and value in place, or append a new entry *)
Put(op, ko, v, out) ==
    LET i == Pos(KeyOf(ko)) IN
    IF i = 0
    THEN /\ ord' = Append(ord, ko) /\ val' = Append(val, v)
         /\ Done(op, <<ko, v>>, IF out THEN <<1, -1, 0>> ELSE <<>>)
    ELSE /\ ord' = [ord EXCEPT ![i] = ko] /\ val' = [val EXCEPT ![i] = v]
         /\ Done(op, <<ko, v>>, IF out THEN <<0, ord[i], val[i]>> ELSE <<>>)

(* get_or_create, storing v into the entry if it is new *)
Goc(ko, v) ==
    LET i == Pos(KeyOf(ko)) IN
    IF i = 0
    THEN /\ ord' = Append(ord, ko) /\ val' = Append(val, v)
         /\ Done("goc", <<ko, v>>, <<1, ko, 0>>)
    ELSE /\ UNCHANGED <<ord, val>>
         /\ Done("goc", <<ko, v>>, <<0, ord[i], val[i]>>)

(* delete by key, reporting the removed objects (or not: "del0") *)
Del(op, ko, out) ==
    LET i == Pos(KeyOf(ko)) IN
    IF i = 0
    THEN /\ UNCHANGED <<ord, val>>
         /\ Done(op, <<ko>>, IF out THEN <<0, -1, 0>> ELSE <<0>>)
    ELSE /\ ord' = Drop(ord, i) /\ val' = Drop(val, i)
         /\ Done(op, <<ko>>, IF out THEN <<1, ord[i], val[i]>> ELSE <<1>>)

(* look an entry up, then delete exactly that entry *)
DelEntry(ko) ==
    LET i == Pos(KeyOf(ko)) IN
    IF i = 0 THEN UNCHANGED <<ord, val>> /\ Done("dele", <<ko>>, 0)
    ELSE ord' = Drop(ord, i) /\ val' = Drop(val, i) /\ Done("dele", <<ko>>, 1)

(* look an entry up and store into its value field *)
SetEntry(ko, v) ==
    LET i == Pos(KeyOf(ko)) IN
    IF i = 0 THEN UNCHANGED <<ord, val>> /\ Done("sete", <<ko, v>>, 0)
    ELSE val' = [val EXCEPT ![i] = v] /\ UNCHANGED ord /\ Done("sete", <<ko, v>>, 1)

Clear == ord' = <<>> /\ val' = <<>> /\ Done("clear", <<>>, 0)
Ensure(n) == UNCHANGED <<ord, val>> /\ Done("ensure", <<n>>, 0)

(* map with a callback that answers ABORT at key ab (-1: never), DELETE for the
   keys in dels, CONTINUE otherwise; the result lists the objects visited *)
InSeq(s, x) == \E j \in 1..Len(s) : s[j] = x
Sel(q, dels, last) ==    \* positions kept
    SelectSeq([i \in 1..Len(q) |-> i],
        LAMBDA i : i >= last \/ ~InSeq(dels, KeyOf(q[i])))
Map(dels, ab) ==
    LET p == Pos(ab)
        last == IF p = 0 THEN Len(ord) + 1 ELSE p
        keep == Sel(ord, dels, last)
    IN /\ ord' = [j \in 1..Len(keep) |-> ord[keep[j]]]
       /\ val' = [j \in 1..Len(keep) |-> val[keep[j]]]
       /\ Done("map", <<dels, ab>>, SubSeq(ord, 1, IF p = 0 THEN Len(ord) ELSE p))

Do(op, a) ==
    CASE op = "put"    -> Put("put", a[1], a[2], TRUE)
      [] op = "put0"   -> Put("put0", a[1], a[2], FALSE)
      [] op = "goc"    -> Goc(a[1], a[2])
      [] op = "del"    -> Del("del", a[1], TRUE)
      [] op = "del0"   -> Del("del0", a[1], FALSE)
      [] op = "dele"   -> DelEntry(a[1])
      [] op = "sete"   -> SetEntry(a[1], a[2])
      [] op = "clear"  -> Clear
      [] op = "ensure" -> Ensure(a[1])
      [] op = "map"    -> Map(a[1], a[2])

(* What the code shows after every operation: size, iteration order, lookups *)
Obs == [n |-> Len(ord),
        it |-> [i \in 1..Len(ord) |-> <<ord[i], val[i]>>],
        get |-> [k \in 1..NDistinct |->
                   LET i == Pos(k - 1) IN IF i = 0 THEN <<-1, 0>> ELSE <<ord[i], val[i]>>]]

(* ---- bounded instance for exhaustive exploration ---- *)
CONSTANTS MCVals, MCDels
KOs == 0..(2 * NKeys - 1)
Ops == {<<"put", <<k, v>>>> : k \in KOs, v \in MCVals}
       \cup {<<"put0", <<k, v>>>> : k \in KOs, v \in MCVals}
       \cup {<<"goc", <<k, v>>>> : k \in KOs, v \in MCVals}
       \cup {<<o, <<k>>>> : o \in {"del", "del0", "dele"}, k \in KOs}
       \cup {<<"sete", <<k, v>>>> : k \in KOs, v \in MCVals}
       \cup {<<"clear", <<>>>>, <<"ensure", <<100>>>>}
       \cup {<<"map", <<d, ab>>>> : d \in MCDels, ab \in -1..(NDistinct - 1)}
Next == \E o \in Ops : Do(o[1], o[2])
Spec == Init /\ [][Next]_vars
View == <<ord, val>>
Emit == PrintT("E" \o ToJson(<<ToString(View), ret'.op, ret'.a, ret'.r, Obs', ToString(View')>>))

(* ---- properties of the specification ---- *)
TypeOK == Len(ord) = Len(val) /\ \A i \in 1..Len(ord) : ord[i] \in KOs
Functional == \A i, j \in 1..Len(ord) : KeyOf(ord[i]) = KeyOf(ord[j]) => i = j
SizeIsDomain == Cardinality({KeyOf(ord[i]) : i \in 1..Len(ord)}) = Len(ord)
(* an operation never reorders the entries it leaves in the table *)
Rank(s, k) == CHOOSE i \in 1..Len(s) : KeyOf(s[i]) = k
Has(s, k) == \E i \in 1..Len(s) : KeyOf(s[i]) = k
OrderStable == [][\A k1, k2 \in 0..(NDistinct - 1) :
                    (Has(ord, k1) /\ Has(ord, k2) /\ Has(ord', k1) /\ Has(ord', k2))
                    => (Rank(ord, k1) < Rank(ord, k2) <=> Rank(ord', k1) < Rank(ord', k2))]_vars
====
