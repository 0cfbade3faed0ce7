---- MODULE Threads ----
(* Threads made by the library (1..NT-1; number 0 is the main thread, and the
   raw ones are threads the library did not make).  A thread is made, perhaps
   started, runs its body once, and is joined; or it is freed without ever
   running.  A run's events are in the order in which they really happened. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NT, MaxId, MCErrs
VARIABLES th, ids, ret
vars == <<th, ids, ret>>
Threads == 1..NT
Pre == <<69,114,114,111,114,32,102,114,111,109,32,116,104,114,101,97,100,32>>        \* "Error from thread "
UnknownMsg == <<85,110,107,110,111,119,110,32,101,114,114,111,114>>                   \* "Unknown error"
UnknownCode == <<36016, 34829>>
NoTh == [st |-> "none", hasf |-> 0, freed |-> 0, name |-> <<>>, rc |-> 0, code |-> <<0, 0>>, msg |-> <<>>]
Out(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
Init == th = [i \in Threads |-> NoTh] /\ ids = [t \in 1..NT + 1 |-> 0] /\ ret = [op |-> "init", a |-> <<>>, r |-> 0]
Reset == th' = [i \in Threads |-> NoTh] /\ ids' = [t \in 1..NT + 1 |-> 0] /\ ret' = [op |-> "reset", a |-> <<>>, r |-> <<>>]
(* ids[t + 1] is thread t's identifier, once known *)
Fresh == (1..MaxId) \ {ids[t] : t \in 1..NT + 1}
New(i, hasf, name) ==
    /\ th[i].st = "none" /\ ids[i + 1] = 0
    /\ \E id \in Fresh :
         /\ th' = [th EXCEPT ![i].st = "new", ![i].hasf = hasf, ![i].name = name]
         /\ ids' = [ids EXCEPT ![i + 1] = id] /\ Out("new", <<i, hasf, name>>, <<id, 1>>)
Start(i, fail) == th[i].st = "new" /\ th' = [th EXCEPT ![i].st = IF fail = 1 THEN "failing" ELSE "started"] /\ UNCHANGED ids /\ Out("start", <<i, fail>>, 0)
(* starting returns, at any time after; a failed start leaves the thread unstarted *)
Started(i, fail) ==
    /\ IF fail = 1 THEN th[i].st = "failing" /\ th' = [th EXCEPT ![i].st = "new"] ELSE th[i].st \in {"started", "running", "ended"} /\ th' = th
    /\ UNCHANGED ids /\ Out("started", <<i, fail>>, IF fail = 1 THEN <<-1, <<0, 11>>>> ELSE <<0, <<0, 0>>>>)
Begin(i) == th[i].st = "started" /\ th' = [th EXCEPT ![i].st = "running"] /\ UNCHANGED ids /\ Out("begin", <<i>>, <<1, ids[i + 1]>>)
End(i, rc, code, msg) ==
    /\ th[i].st = "running"
    /\ th' = [th EXCEPT ![i].st = "ended", ![i].rc = rc, ![i].code = code, ![i].msg = msg]
    /\ UNCHANGED ids /\ Out("end", <<i, rc, code, msg>>, <<ids[i + 1]>>)
FreeUd(i) == /\ th[i].st \in {"ended", "freeing"} /\ th[i].hasf = 1 /\ th[i].freed = 0
             /\ th' = [th EXCEPT ![i].freed = 1] /\ UNCHANGED ids /\ Out("freeud", <<i>>, 0)
JoinResult(t) ==
    IF t.rc = 0 THEN <<0, <<0, 0>>, <<>>, 1>>
    ELSE IF t.code = <<0, 0>> THEN <<-1, UnknownCode, Pre \o t.name \o <<58, 32>> \o UnknownMsg, 1>>
    ELSE <<-1, t.code, Pre \o t.name \o <<58, 32>> \o t.msg, 1>>
Join(i) == /\ th[i].st = "ended" /\ th[i].freed = th[i].hasf
           /\ th' = [th EXCEPT ![i].st = "gone"] /\ UNCHANGED ids /\ Out("join", <<i>>, JoinResult(th[i]))
Free(i) == th[i].st = "new" /\ th' = [th EXCEPT ![i].st = "freeing"] /\ UNCHANGED ids /\ Out("free", <<i>>, 0)
Freed(i) == th[i].st = "freeing" /\ th[i].freed = th[i].hasf /\ th' = [th EXCEPT ![i].st = "gone"] /\ UNCHANGED ids /\ Out("freed", <<i>>, 0)
(* a thread asks for its own identifier (and whether it has no thread object) *)
Id(t1) ==
    /\ (t1 > 1 /\ th[t1 - 1].st # "none") => th[t1 - 1].st = "running"
    /\ \/ ids[t1] # 0 /\ ids' = ids
       \/ ids[t1] = 0 /\ \E id \in Fresh : ids' = [ids EXCEPT ![t1] = id]
    /\ UNCHANGED th
    /\ Out("id", <<t1>>, <<ids'[t1], IF t1 > 1 /\ th[t1 - 1].st # "none" THEN 0 ELSE 1>>)
Exit == (\A i \in Threads : th[i].st \in {"none", "gone"}) /\ UNCHANGED <<th, ids>> /\ Out("exit", <<>>, 0)
Do(op, a) ==
    CASE op = "new" -> New(a[1], a[2], a[3]) [] op = "start" -> Start(a[1], a[2]) [] op = "started" -> Started(a[1], a[2])
      [] op = "begin" -> Begin(a[1]) [] op = "end" -> End(a[1], a[2], a[3], a[4]) [] op = "freeud" -> FreeUd(a[1])
      [] op = "join" -> Join(a[1]) [] op = "free" -> Free(a[1]) [] op = "freed" -> Freed(a[1]) [] op = "id" -> Id(a[1])
      [] op = "exit" -> Exit [] OTHER -> FALSE
Obs == <<>>
Next == \/ \E i \in Threads : New(i, 1, <<120>>) \/ New(i, 0, <<121>>) \/ Start(i, 0) \/ Start(i, 1) \/ Started(i, 0) \/ Started(i, 1)
              \/ Begin(i) \/ FreeUd(i) \/ Join(i) \/ Free(i) \/ Freed(i) \/ (\E e \in MCErrs : End(i, e[1], e[2], e[3]))
        \/ \E t \in 1..NT + 1 : Id(t)
Spec == Init /\ [][Next]_vars
View == <<th, ids>>
DistinctIds == \A s, t \in 1..NT + 1 : (s # t /\ ids[s] # 0) => ids[s] # ids[t]
StableIds == [][\A t \in 1..NT + 1 : ids[t] # 0 => ids'[t] = ids[t]]_ids
BodyOnce == [][\A i \in Threads : (ret'.op = "begin" /\ ret'.a[1] = i) => th[i].st = "started"]_vars
JoinedAfter == \A i \in Threads : th[i].st = "gone" => th[i].freed = th[i].hasf
====
