---- MODULE Mempool ----
(* Memory pools.  Objects are numbered in the order in which the outside first
   sees them (when initialised, or when handed out by a pool without an
   initialiser).  Which object a pool hands out, and how many it makes when it
   takes a new block, is the pool's choice: those choices are arguments of the
   actions.

   A pool: on; seen objects, with the byte their users last wrote (cont; -1
   unknown); live ones; inited ones; ini/fin: callbacks installed; blocks taken;
   ud: its user data. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NP, MCFills, MCSeen, MCBlock
VARIABLES pool, ret
vars == <<pool, ret>>
NoPool == [on |-> 0, cont |-> <<>>, live |-> {}, ini |-> 0, fin |-> 0, blocks |-> 0, ud |-> 0]
P == 1..NP
InitByte == 7
Done(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
Init == pool = [p \in P |-> NoPool] /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == pool' = [p \in P |-> NoPool] /\ Done("reset", <<>>, <<>>)
Seen(p) == Len(pool[p].cont)
Free(p) == 1..Seen(p) \ pool[p].live
Pool(p, es, bs) == pool[p].on = 0 /\ pool' = [pool EXCEPT ![p] = [NoPool EXCEPT !.on = 1]] /\ Done("pool", <<p, es, bs>>, <<>>)
Cb(p, i, d) == pool[p].on = 1 /\ pool[p].blocks = 0 /\ pool' = [pool EXCEPT ![p].ini = i, ![p].fin = d] /\ Done("cb", <<p, i, d>>, <<>>)
(* replacing the user data frees the old one *)
Ud(p, u) == pool[p].on = 1 /\ pool' = [pool EXCEPT ![p].ud = u] /\ Done("ud", <<p, u>>, <<pool[p].ud>>)
(* user data and callbacks in one call *)
All(p, u, i, d) == /\ pool[p].on = 1 /\ pool[p].blocks = 0
                   /\ pool' = [pool EXCEPT ![p].ud = u, ![p].ini = i, ![p].fin = d] /\ Done("all", <<p, u, i, d>>, <<pool[p].ud>>)
(* hand out object id; news: objects initialised meanwhile; blk: blocks taken *)
New(p, fill, id, news, blk, before) ==
    LET q == pool[p]
        n == Seen(p)
        fresh == id = n + 1 \/ Len(news) > 0
        n2 == IF Len(news) > 0 THEN n + Len(news) ELSE IF id = n + 1 THEN n + 1 ELSE n
        cont2 == [i \in 1..n2 |-> IF i = id THEN fill ELSE IF i <= n THEN q.cont[i] ELSE InitByte]
    IN /\ q.on = 1
       /\ blk \in {0, 1}
       /\ (blk = 1) => Free(p) = {}                        \* freed objects first
       /\ (blk = 0) => Len(news) = 0
       /\ (blk = 0 /\ q.ini = 1) => id \in Free(p)
       /\ (blk = 1 /\ q.ini = 1) => Len(news) > 0
       /\ q.ini = 0 => news = <<>>
       /\ news = [i \in 1..Len(news) |-> n + i]            \* each initialised once, and never again
       /\ id \in 1..n2 \ q.live
       /\ (n2 > n /\ Len(news) = 0) => (id = n2 /\ (q.blocks > 0 \/ blk = 1))
       /\ (n2 > n /\ Len(news) > 0) => id > n
       /\ (id <= n /\ q.cont[id] # -1) => before = q.cont[id]      \* untouched since it was freed
       /\ (Len(news) > 0) => before = InitByte
       /\ pool' = [pool EXCEPT ![p].cont = cont2, ![p].live = @ \cup {id}, ![p].blocks = @ + blk]
       /\ Done("new", <<p, fill, id, news, blk, before>>, <<1, q.ud>>)     \* well placed; initialised with the right user data
FreeObj(p, id) == id \in pool[p].live /\ pool' = [pool EXCEPT ![p].live = @ \ {id}] /\ Done("free", <<p, id>>, <<>>)
Write(p, id, v) == id \in pool[p].live /\ pool' = [pool EXCEPT ![p].cont[id] = v] /\ Done("w", <<p, id, v>>, <<>>)
(* destroying the pool finalises every object once; extra: objects never seen *)
Del(p, dones, extra) ==
    /\ pool[p].on = 1 /\ pool[p].live = {}
    /\ pool[p].fin = 0 => (dones = <<>> /\ extra = 0)
    /\ pool[p].fin = 1 => (dones = [i \in 1..Seen(p) |-> i] /\ (pool[p].ini = 1 \/ pool[p].blocks = 0 => extra = 0))
    /\ pool' = [pool EXCEPT ![p] = NoPool]
    /\ Done("del", <<p, dones, extra>>, <<pool[p].ud>>)
(* destroying a pool with live objects aborts the process *)
DelBad(p) == pool[p].on = 1 /\ pool[p].live # {} /\ UNCHANGED pool /\ Done("delbad", <<p>>, <<1>>)
Do(op, a) ==
    CASE op = "pool" -> Pool(a[1], a[2], a[3]) [] op = "cb" -> Cb(a[1], a[2], a[3]) [] op = "ud" -> Ud(a[1], a[2]) [] op = "all" -> All(a[1], a[2], a[3], a[4])
      [] op = "new" -> New(a[1], a[2], a[3], a[4], a[5], a[6]) [] op = "free" -> FreeObj(a[1], a[2])
      [] op = "w" -> Write(a[1], a[2], a[3]) [] op = "del" -> Del(a[1], a[2], a[3]) [] op = "delbad" -> DelBad(a[1])
(* the bytes of the live objects (-1: not live); memory left when no pool exists *)
Obs == <<[p \in P |-> [i \in 1..Seen(p) |-> IF i \in pool[p].live THEN pool[p].cont[i] ELSE -1]], 0>>
Ops == {<<"pool", <<p, 8, 64>>>> : p \in P} \cup {<<"cb", <<p, i, 1>>>> : p \in P, i \in {0, 1}} \cup {<<"ud", <<p, 1>>>> : p \in P} \cup {<<"all", <<p, 2, i, 1>>>> : p \in P, i \in {0, 1}}
   \cup {<<"new", <<p, f, i, [j \in 1..k |-> Seen(p) + j], b, x>>>> : p \in P, f \in MCFills, i \in 1..MCSeen, k \in {0, MCBlock}, b \in {0, 1}, x \in MCFills \cup {7}}
   \cup {<<"free", <<p, i>>>> : p \in P, i \in 1..MCSeen} \cup {<<"w", <<p, i, f>>>> : p \in P, i \in 1..MCSeen, f \in MCFills}
   \cup {<<"del", <<p, [i \in 1..(IF pool[p].fin = 1 THEN Seen(p) ELSE 0) |-> i], x>>>> : p \in P, x \in {0, 1}} \cup {<<"delbad", <<p>>>> : p \in P}
Next == \E o \in Ops : (o[1] = "new" => Seen(o[2][1]) + Len(o[2][4]) <= MCSeen) /\ Do(o[1], o[2])
Spec == Init /\ [][Next]_vars
View == pool
LiveSeen == \A p \in P : pool[p].live \subseteq 1..Seen(p)
Off == \A p \in P : pool[p].on = 0 => pool[p] = NoPool
(* an object is never handed out while it is live, and a pool with a free object
   does not grow *)
Distinct == [][\A p \in P : (ret'.op = "new" /\ ret'.a[1] = p) => (ret'.a[3] \notin pool[p].live /\ (Free(p) # {} => pool'[p].blocks = pool[p].blocks))]_vars
(* nothing but its own user changes a live object, and other pools never do *)
Untouched == [][\A p \in P : \A i \in pool[p].live : (i \in pool'[p].live /\ pool'[p].cont[i] # pool[p].cont[i]) => (ret'.op = "w" /\ ret'.a[1] = p /\ ret'.a[2] = i)]_vars
====
