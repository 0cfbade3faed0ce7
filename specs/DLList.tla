---- MODULE DLList ----
(* Several doubly-linked lists over a pool of elements; every element is a
   member of at most one list.  L[i] is the sequence of members of list i. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NL, NE, MCVisits    \* MCVisits: set of <<removed elements, stop element>>
VARIABLES L, ret
vars == <<L, ret>>
Lists == 1..NL
Elems == 1..NE
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Mem(s, x) == \E i \in 1..Len(s) : s[i] = x
IdxOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Where(e) == LET S == {i \in Lists : Mem(L[i], e)} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Ins(s, p, e) == SubSeq(s, 1, p) \o <<e>> \o SubSeq(s, p + 1, Len(s))     \* after position p
Del(s, p) == SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s))
Done(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
Init == L = [i \in Lists |-> <<>>] /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == L' = [i \in Lists |-> <<>>] /\ Done("reset", <<>>, <<>>)
AddHead(l, e) == Where(e) = 0 /\ L' = [L EXCEPT ![l] = <<e>> \o @] /\ Done("addh", <<l, e>>, <<>>)
AddTail(op, l, e) == Where(e) = 0 /\ L' = [L EXCEPT ![l] = Append(@, e)] /\ Done(op, <<l, e>>, <<>>)
AddAfter(p, e) == LET l == Where(p) IN /\ l # 0 /\ Where(e) = 0
    /\ L' = [L EXCEPT ![l] = Ins(@, IdxOf(@, p), e)] /\ Done("aft", <<p, e>>, <<>>)
AddBefore(p, e) == LET l == Where(p) IN /\ l # 0 /\ Where(e) = 0
    /\ L' = [L EXCEPT ![l] = Ins(@, IdxOf(@, p) - 1, e)] /\ Done("bef", <<p, e>>, <<>>)
Remove(e) == LET l == Where(e) IN /\ l # 0
    /\ L' = [L EXCEPT ![l] = Del(@, IdxOf(@, e))] /\ Done("rem", <<e>>, <<>>)
CatHead(d, s) == d # s /\ L' = [L EXCEPT ![d] = L[s] \o L[d], ![s] = <<>>] /\ Done("cath", <<d, s>>, <<>>)
CatTail(d, s) == d # s /\ L' = [L EXCEPT ![d] = L[d] \o L[s], ![s] = <<>>] /\ Done("catt", <<d, s>>, <<>>)
InitList(l) == L' = [L EXCEPT ![l] = <<>>] /\ Done("init", <<l>>, <<>>)
(* visit list l: each visited element in rm is removed by the callback; the
   callback returns 7 or -7 for the element `stop'.  op "map"/"fe"/"fev" (the void
   map and the two foreach macros) do not stop. *)
Visit(op, l, rm, stop) ==
    LET s == L[l]
        p == IF op = "visit" /\ Mem(s, stop) THEN IdxOf(s, stop) ELSE 0
        n == IF p = 0 THEN Len(s) ELSE p
        seen == SubSeq(s, 1, n)
    IN /\ L' = [L EXCEPT ![l] = SelectSeq(seen, LAMBDA x : ~Mem(rm, x)) \o SubSeq(s, n + 1, Len(s))]
       /\ Done(op, <<l, rm, stop>>, <<IF p = 0 THEN 0 ELSE IF stop % 2 = 0 THEN -7 ELSE 7, seen>>)
Do(op, a) ==
    CASE op = "addh" -> AddHead(a[1], a[2])
      [] op \in {"addt", "add"} -> AddTail(op, a[1], a[2])
      [] op = "aft" -> AddAfter(a[1], a[2])
      [] op = "bef" -> AddBefore(a[1], a[2])
      [] op = "rem" -> Remove(a[1])
      [] op = "cath" -> CatHead(a[1], a[2])
      [] op = "catt" -> CatTail(a[1], a[2])
      [] op = "init" -> InitList(a[1])
      [] op \in {"visit", "map", "fe", "fev"} -> Visit(op, a[1], a[2], a[3])
OneObs(s) == <<s, Rev(s), Len(s), IF s = <<>> THEN 1 ELSE 0,
               IF s = <<>> THEN 0 ELSE s[1], IF s = <<>> THEN 0 ELSE s[Len(s)]>>
Obs == [i \in Lists |-> OneObs(L[i])]
Ops == {<<o, <<l, e>>>> : o \in {"addh", "addt", "add"}, l \in Lists, e \in Elems}
       \cup {<<o, <<p, e>>>> : o \in {"aft", "bef"}, p \in Elems, e \in Elems}
       \cup {<<"rem", <<e>>>> : e \in Elems}
       \cup {<<o, <<d, s>>>> : o \in {"cath", "catt"}, d \in Lists, s \in Lists}
       \cup {<<"init", <<l>>>> : l \in Lists}
       \cup {<<o, <<l, v[1], v[2]>>>> : o \in {"visit", "map", "fe", "fev"}, l \in Lists, v \in MCVisits}
Next == \E o \in Ops : Do(o[1], o[2])
Spec == Init /\ [][Next]_vars
View == L
Emit == PrintT("E" \o ToJson(<<ToString(View), ret'.op, ret'.a, ret'.r, Obs', ToString(View')>>))
(* every element is in at most one list, at one place *)
Disjoint == \A i, j \in Lists : \A p \in 1..Len(L[i]), q \in 1..Len(L[j]) :
               (i # j \/ p # q) => L[i][p] # L[j][q]
All(s) == UNION {{s[i][j] : j \in 1..Len(s[i])} : i \in DOMAIN s}
(* concatenation neither loses nor invents elements *)
CatConserves == [][ret'.op \in {"cath", "catt"} => All(L) = All(L')]_vars
====
