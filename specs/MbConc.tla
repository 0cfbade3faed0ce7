---- MODULE MbConc ----
(* One buffer shared by several threads: each starts with one reference, takes
   and drops more (directly, or as slices and copies of slices), and reads the
   buffer while it holds something.  The buffer is freed exactly once, only
   after nobody holds anything, with its own address and size. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NT, MCSlots, MCHeld
VARIABLES held, sl, freed, on, ret
vars == <<held, sl, freed, on, ret>>
Threads == 1..NT
Size == 8
Out(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
Init == held = [t \in Threads |-> 0] /\ sl = [t \in Threads |-> {}] /\ freed = 0 /\ on = 0 /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == held' = [t \in Threads |-> 0] /\ sl' = [t \in Threads |-> {}] /\ freed' = 0 /\ on' = 0 /\ Out("reset", <<>>, <<>>)
Begin(n) == on = 0 /\ on' = 1 /\ held' = [t \in Threads |-> IF t <= n THEN 1 ELSE 0] /\ UNCHANGED <<sl, freed>> /\ Out("start", <<n>>, <<>>)
Holds(t) == held[t] > 0 \/ sl[t] # {}
Keep == UNCHANGED <<on, freed>>
Ref(t) == Holds(t) /\ held' = [held EXCEPT ![t] = @ + 1] /\ UNCHANGED sl /\ Keep /\ Out("ref", <<t>>, <<>>)
Unref(t) == held[t] > 0 /\ held' = [held EXCEPT ![t] = @ - 1] /\ UNCHANGED sl /\ Keep /\ Out("unref", <<t>>, <<>>)
Slice(t, k, o, n) ==
    /\ Holds(t) /\ k \notin sl[t]
    /\ IF o <= Size /\ n <= Size - o THEN sl' = [sl EXCEPT ![t] = @ \cup {k}] /\ Out("slice", <<t, k, o, n>>, <<0>>)
       ELSE sl' = sl /\ Out("slice", <<t, k, o, n>>, <<-1>>)
    /\ UNCHANGED held /\ Keep
Copy(t, k, j) == j \in sl[t] /\ k \notin sl[t] /\ sl' = [sl EXCEPT ![t] = @ \cup {k}] /\ UNCHANGED held /\ Keep /\ Out("copy", <<t, k, j>>, <<0>>)
Finish(t, k) == k \in sl[t] /\ sl' = [sl EXCEPT ![t] = @ \ {k}] /\ UNCHANGED held /\ Keep /\ Out("finish", <<t, k>>, <<>>)
Read(t) == Holds(t) /\ UNCHANGED <<held, sl>> /\ Keep /\ Out("read", <<t>>, <<1>>)
Free == /\ on = 1 /\ freed = 0 /\ (\A t \in Threads : ~Holds(t)) /\ freed' = 1 /\ UNCHANGED <<held, sl, on>> /\ Out("free", <<>>, <<1, Size>>)
Exit == freed = 1 /\ UNCHANGED <<held, sl>> /\ Keep /\ Out("exit", <<>>, 0)
Do(op, a) ==
    CASE op = "start" -> Begin(a[1]) [] op = "ref" -> Ref(a[1]) [] op = "unref" -> Unref(a[1]) [] op = "slice" -> Slice(a[1], a[2], a[3], a[4])
      [] op = "copy" -> Copy(a[1], a[2], a[3]) [] op = "finish" -> Finish(a[1], a[2]) [] op = "read" -> Read(a[1])
      [] op = "free" -> Free [] op = "exit" -> Exit [] OTHER -> FALSE
Obs == <<>>
Next == \/ Begin(NT) \/ Free
        \/ \E t \in Threads : (held[t] < MCHeld /\ Ref(t)) \/ Unref(t) \/ Read(t)
              \/ \E k \in MCSlots : Slice(t, k, 1, 2) \/ Slice(t, k, 9, 0) \/ Finish(t, k) \/ (\E j \in MCSlots : Copy(t, k, j))
Spec == Init /\ [][Next]_vars
View == <<held, sl, freed, on>>
NotWhileHeld == freed = 1 => \A t \in Threads : ~Holds(t)
Alone == [][\A t \in Threads : (held'[t] # held[t] \/ sl'[t] # sl[t]) => (ret'.op = "start" \/ ret'.a[1] = t)]_<<held, sl>>
====
