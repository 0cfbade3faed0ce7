---- MODULE ArrayLife ----
(* Lifecycle of the element slots of two arrays with callbacks.  Every slot
   carries an identity given to it by its init callback (kind OWN = FALSE; by the
   caller, silently, if there is none: INI = FALSE), or
   the identity of the heap object stored into it (OWN = TRUE: arrays of owned
   pointers).  live[i]: identities now in array i; spare[i]: slots initialised
   earlier, not in use now.  A result is the sorted list of <<callback, id>>
   invoked by the operation; callbacks: 1 init, 2 reuse, 3 remove, 4 done,
   5 user data freed (id 0), for owned pointers 6 = free. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS OWN, INI, RE, RM, DN     \* which callbacks are registered
VARIABLES live, spare, nxt, ret
vars == <<live, spare, nxt, ret>>
Lt(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Log(S) == SetToSortSeq(S, Lt)
Tag(on, k, S) == IF on THEN {<<k, x>> : x \in S} ELSE {}
Set(s) == {s[i] : i \in 1..Len(s)}
Done(op, a, S) == ret' = [op |-> op, a |-> a, r |-> Log(S)]
Init == live = <<{}, {}>> /\ spare = <<{}, {}>> /\ nxt = 1 /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == live' = <<{}, {}>> /\ spare' = <<{}, {}>> /\ nxt' = 1 /\ Done("reset", <<>>, {})
(* one slot is added: a spare one is reused, otherwise a new one is initialised *)
App(i) ==
    IF OWN
    THEN live' = [live EXCEPT ![i] = @ \cup {nxt}] /\ nxt' = nxt + 1 /\ UNCHANGED spare /\ Done("app", <<i>>, {})
    ELSE IF spare[i] = {}
    THEN live' = [live EXCEPT ![i] = @ \cup {nxt}] /\ nxt' = nxt + 1 /\ UNCHANGED spare /\ Done("app", <<i>>, Tag(INI, 1, {nxt}))
    ELSE \E x \in spare[i] : /\ live' = [live EXCEPT ![i] = @ \cup {x}]
                             /\ spare' = [spare EXCEPT ![i] = @ \ {x}]
                             /\ UNCHANGED nxt /\ Done("app", <<i>>, Tag(RE, 2, {x}))
Leave(i, S) == /\ live' = [live EXCEPT ![i] = @ \ S]
               /\ spare' = IF OWN THEN spare ELSE [spare EXCEPT ![i] = @ \cup S]
Out(S) == IF OWN THEN Tag(TRUE, 6, S) ELSE Tag(RM, 3, S)
(* ids: the identities found at the removed positions before the call *)
Rmr(op, i, p, n, ids) == Set(ids) \subseteq live[i] /\ Leave(i, Set(ids)) /\ UNCHANGED nxt /\ Done(op, <<i, p, n, ids>>, Out(Set(ids)))
Clear(i) == Leave(i, live[i]) /\ UNCHANGED nxt /\ Done("clear", <<i>>, Out(live[i]))
Ens(i, n) == UNCHANGED <<live, spare, nxt>> /\ Done("ens", <<i, n>>, {})
Renew(i) == /\ live' = [live EXCEPT ![i] = {}] /\ spare' = [spare EXCEPT ![i] = {}] /\ UNCHANGED nxt
            /\ Done("renew", <<i>>, (IF OWN THEN Tag(TRUE, 6, live[i]) ELSE Tag(DN, 4, live[i] \cup spare[i]) \cup {<<5, 0>>}))
(* the destination's n slots after the copy are ids *)
Copy(s, f, ids) ==
    LET d == 3 - s
        n == Cardinality(live[s])
        I == Set(ids)
        pool == spare[d] \cup live[d]
        re == IF OWN THEN 0 ELSE IF Cardinality(pool) < n THEN Cardinality(pool) ELSE n
        fresh == nxt..(nxt + (n - re) - 1)
        R == I \ fresh
    IN /\ Cardinality(I) = n /\ fresh \subseteq I
       /\ IF OWN THEN R = {} ELSE R \subseteq pool
       /\ live' = [live EXCEPT ![d] = I]
       /\ spare' = IF OWN THEN spare ELSE [spare EXCEPT ![d] = pool \ I]
       /\ nxt' = nxt + (n - re)
       /\ Done("copy", <<s, f, ids>>, Out(live[d]) \cup IF OWN THEN {} ELSE Tag(RE, 2, R) \cup Tag(INI, 1, fresh))
(* the copier fails at some element, and the caller then clears the destination:
   every slot the copy prepared has been removed again (m new slots exist) *)
CopyFail(s, f, m, ids) ==
    LET d == 3 - s
        n == Cardinality(live[s])
        pool == spare[d] \cup live[d]
        fresh == nxt..(nxt + m - 1)
        I == Set(ids)
    IN /\ ~OWN /\ m <= n
       /\ I \subseteq (pool \cup fresh) /\ fresh \subseteq I
       /\ live' = [live EXCEPT ![d] = {}]
       /\ spare' = [spare EXCEPT ![d] = pool \cup fresh]
       /\ nxt' = nxt + m
       \* ids = slots prepared by init or reuse: each is removed exactly once more
       /\ ret' = [op |-> "copyfail", a |-> <<s, f, m, ids>>,
                  r |-> SetToSortSeq(Tag(RE, 2, I \ fresh) \cup Tag(TRUE, 1, fresh), Lt)
                        \o SetToSortSeq(Tag(RM, 3, live[d]), Lt) \o SetToSortSeq(Tag(RM, 3, I), Lt)]
(* owned pointers: m copies were made before the failure, all are freed *)
CopyFailOwn(s, f, m, ids) ==
    LET d == 3 - s IN
    /\ OWN /\ f = m
    /\ live' = [live EXCEPT ![d] = {}] /\ UNCHANGED spare /\ nxt' = nxt + m
    /\ Done("copyfail", <<s, f, m, ids>>, Tag(TRUE, 6, live[d] \cup (nxt..(nxt + m - 1))))
Do(op, a) ==
    CASE op = "app" -> App(a[1])
      [] op = "rmr" -> Rmr(op, a[1], a[2], a[3], a[4])
      [] op = "clear" -> Clear(a[1])
      [] op = "ens" -> Ens(a[1], a[2])
      [] op = "renew" -> Renew(a[1])
      [] op = "copy" -> Copy(a[1], a[2], a[3])
      [] op = "copyfail" -> IF OWN THEN CopyFailOwn(a[1], a[2], a[3], a[4]) ELSE CopyFail(a[1], a[2], a[3], a[4])
Sorted(S) == SetToSortSeq(S, <)
Obs == <<Sorted(live[1]), Sorted(live[2]), 0>>       \* third: blocks not released by a destroyed array
Phases == /\ live[1] \cap live[2] = {} /\ \A i \in 1..2 : live[i] \cap spare[i] = {}
          /\ live[1] \cap spare[2] = {} /\ live[2] \cap spare[1] = {} /\ spare[1] \cap spare[2] = {}
          /\ \A i \in 1..2 : \A x \in live[i] \cup spare[i] : x < nxt
CONSTANT MCMax
NextMC == \/ \E i \in 1..2 : \/ Cardinality(live[i]) < MCMax /\ nxt <= 2 * MCMax + 1 /\ App(i)
                             \/ \E S \in SUBSET live[i] : Rmr("rmr", i, 0, 0, SetToSeq(S))
                             \/ Clear(i) \/ Renew(i)
                             \/ nxt <= 2 * MCMax + 1 /\ \E S \in SUBSET (1..(nxt + MCMax)) : Copy(i, -1, SetToSeq(S))
Spec == Init /\ [][NextMC]_vars
View == <<live, spare, nxt>>
(* an initialised slot is finalised only by destruction, and then exactly once *)
Finalised == [][\A i \in 1..2 : (live[i] \cup spare[i]) \subseteq (live'[i] \cup spare'[i])
                   \/ ret'.op \in {"renew", "reset"} \/ OWN]_vars
====
