---- MODULE HashOwn ----
(* Ownership of keys and values by a hash table with free callbacks.  Key
   objects 1..NKO (object o carries key (o-1) \div 2) and values 1..NV; each
   object is in the table at most once.  The result of every operation lists,
   per object, how often it was handed to its free callback by that operation. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NKO, NV, FK, FV, UD,   \* FK/FV/UD: is the callback registered
          MCDels
VARIABLES ord, val, ret
vars == <<ord, val, ret>>
KeyOf(o) == (o - 1) \div 2
Pos(k) == LET S == {i \in 1..Len(ord) : KeyOf(ord[i]) = k} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Drop(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
InSeq(s, x) == \E j \in 1..Len(s) : s[j] = x
(* the callbacks run for the entries at the given positions *)
Freed(S, ud) == [k |-> [o \in 1..NKO |-> IF FK /\ (\E i \in S : ord[i] = o) THEN 1 ELSE 0],
                 v |-> [x \in 1..NV  |-> IF FV /\ (\E i \in S : val[i] = x) THEN 1 ELSE 0],
                 u |-> IF UD /\ ud THEN 1 ELSE 0]
Done(op, a, r, f) == ret' = [op |-> op, a |-> a, r |-> [x |-> r, f |-> f]]
Init == ord = <<>> /\ val = <<>> /\ ret = [op |-> "init", a |-> <<>>, r |-> 0]
Reset == ord' = <<>> /\ val' = <<>> /\ ret' = [op |-> "reset", a |-> <<>>, r |-> 0]
Avail(o, v) == ~InSeq(ord, o) /\ (v = 0 \/ ~InSeq(val, v))
Put(o, v) ==
    LET i == Pos(KeyOf(o)) IN
    /\ Avail(o, v)
    /\ IF i = 0
       THEN ord' = Append(ord, o) /\ val' = Append(val, v) /\ Done("put", <<o, v>>, <<1, 0, 0>>, Freed({}, FALSE))
       ELSE ord' = [ord EXCEPT ![i] = o] /\ val' = [val EXCEPT ![i] = v]
            /\ Done("put", <<o, v>>, <<0, ord[i], val[i]>>, Freed({}, FALSE))
Goc(o, v) ==
    LET i == Pos(KeyOf(o)) IN
    /\ Avail(o, v)
    /\ IF i = 0
       THEN ord' = Append(ord, o) /\ val' = Append(val, v) /\ Done("goc", <<o, v>>, 1, Freed({}, FALSE))
       ELSE UNCHANGED <<ord, val>> /\ Done("goc", <<o, v>>, 0, Freed({}, FALSE))
Del(op, o) ==
    LET i == Pos(KeyOf(o)) IN
    IF i = 0 THEN UNCHANGED <<ord, val>> /\ Done(op, <<o>>, 0, Freed({}, FALSE))
    ELSE ord' = Drop(ord, i) /\ val' = Drop(val, i) /\ Done(op, <<o>>, 1, Freed({i}, FALSE))
Clear == ord' = <<>> /\ val' = <<>> /\ Done("clear", <<>>, 0, Freed(1..Len(ord), FALSE))
Destroy == ord' = <<>> /\ val' = <<>> /\ Done("destroy", <<>>, 0, Freed(1..Len(ord), TRUE))
Map(dels, ab) ==
    LET p == Pos(ab)
        last == IF p = 0 THEN Len(ord) + 1 ELSE p
        gone == {i \in 1..Len(ord) : i < last /\ InSeq(dels, KeyOf(ord[i]))}
        keep == SelectSeq([i \in 1..Len(ord) |-> i], LAMBDA i : i \notin gone)
    IN /\ ord' = [j \in 1..Len(keep) |-> ord[keep[j]]]
       /\ val' = [j \in 1..Len(keep) |-> val[keep[j]]]
       /\ Done("map", <<dels, ab>>, 0, Freed(gone, FALSE))
Do(op, a) ==
    CASE op = "put" -> Put(a[1], a[2])
      [] op = "goc" -> Goc(a[1], a[2])
      [] op = "del" -> Del("del", a[1])
      [] op = "dele" -> Del("dele", a[1])
      [] op = "clear" -> Clear
      [] op = "ensure" -> UNCHANGED <<ord, val>> /\ Done("ensure", a, 0, Freed({}, FALSE))
      [] op = "destroy" -> Destroy
      [] op = "map" -> Map(a[1], a[2])
Obs == Len(ord)
Ops == {<<o, <<k, v>>>> : o \in {"put", "goc"}, k \in 1..NKO, v \in 0..NV}
       \cup {<<o, <<k>>>> : o \in {"del", "dele"}, k \in 1..NKO}
       \cup {<<"clear", <<>>>>, <<"destroy", <<>>>>}
       \cup {<<"map", <<d, ab>>>> : d \in MCDels, ab \in -1..((NKO - 1) \div 2)}
Next == \E o \in Ops : Do(o[1], o[2])
Spec == Init /\ [][Next]_vars
View == <<ord, val>>
Emit == PrintT("E" \o ToJson(<<ToString(View), ret'.op, ret'.a, ret'.r, Obs', ToString(View')>>))
(* No object is in the table twice, so none can be freed twice without being
   stored again in between; and whatever leaves the table other than by
   replacement is freed in the same step. *)
Linear == /\ \A i, j \in 1..Len(ord) : i # j => ord[i] # ord[j] /\ (val[i] # 0 => val[i] # val[j])
FreedLeaves == [][/\ FK => \A o \in 1..NKO : (ret'.op # "reset" /\ ret'.r.f.k[o] = 1) => InSeq(ord, o) /\ ~InSeq(ord', o)
                  /\ (FK /\ ret'.op \notin {"reset", "put"}) =>
                       \A o \in 1..NKO : InSeq(ord, o) /\ ~InSeq(ord', o) => ret'.r.f.k[o] = 1]_vars
====
