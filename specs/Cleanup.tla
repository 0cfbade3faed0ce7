---- MODULE Cleanup ----
(* Cleanup functions.  pend counts the outstanding registrations of every
   <<priority, function>>.  Registrations happen at any time; when the process
   terminates normally (phase "exiting"), the functions run one after another,
   always one with the lowest outstanding priority, and a running function may
   register others; the process ends when nothing is outstanding. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MCFns, MCPrios, MCMax
VARIABLES pend, phase, running, ret
vars == <<pend, phase, running, ret>>
Say(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
None == [x \in {} |-> 0]
Init == pend = None /\ phase = "main" /\ running = <<>> /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == pend' = None /\ phase' = "main" /\ running' = <<>> /\ Say("reset", <<>>, <<>>)
Plus(p, k) == [x \in DOMAIN p \cup {k} |-> (IF x \in DOMAIN p THEN p[x] ELSE 0) + (IF x = k THEN 1 ELSE 0)]
Minus(p, k) == [x \in {y \in DOMAIN p : y # k \/ p[y] > 1} |-> p[x] - (IF x = k THEN 1 ELSE 0)]
Lowest(p) == {k \in DOMAIN p : \A j \in DOMAIN p : k[1] <= j[1]}
Do(op, a) ==
    CASE op = "reg" ->                                        \* a: function, priority
           /\ phase = "main" \/ running # <<>>
           /\ pend' = Plus(pend, <<a[2], a[1]>>) /\ UNCHANGED <<phase, running>> /\ Say(op, a, <<>>)
      [] op = "exit" -> phase = "main" /\ phase' = "exiting" /\ UNCHANGED <<pend, running>> /\ Say(op, a, <<>>)
      [] op = "call" ->
           /\ phase = "exiting" /\ running = <<>>
           /\ \E k \in Lowest(pend) : k[2] = a[1] /\ pend' = Minus(pend, k)
           /\ running' = <<a[1]>> /\ UNCHANGED phase /\ Say(op, a, <<>>)
      [] op = "return" -> running = <<a[1]>> /\ running' = <<>> /\ UNCHANGED <<pend, phase>> /\ Say(op, a, <<>>)
      (* using another part of the library works, whether before or during cleanup *)
      [] op = "use" -> (phase = "main" \/ running # <<>>) /\ UNCHANGED <<pend, phase, running>> /\ Say(op, a, 1)
      (* the process has ended, with the status it asked for (a: status; r: status, memory the library still holds) *)
      [] op = "end" ->
           /\ phase = "exiting" /\ running = <<>> /\ pend = None
           /\ phase' = "ended" /\ UNCHANGED <<pend, running>> /\ Say(op, a, <<a[1], 0>>)
      [] OTHER -> FALSE
Obs == <<>>
Total(p) == LET ks == DOMAIN p IN Cardinality(ks)
Next == \/ \E f \in MCFns, p \in MCPrios : Cardinality(DOMAIN pend) < MCMax /\ (\A k \in DOMAIN pend : pend[k] < 2) /\ Do("reg", <<f, p>>)
        \/ \E f \in MCFns : Do("call", <<f>>) \/ Do("return", <<f>>)
        \/ Do("exit", <<>>) \/ Do("end", <<0>>)
Spec == Init /\ [][Next]_vars
View == <<pend, phase, running>>
(* between two registrations the calls are in order of priority; nothing is lost *)
Ordered == [][ret'.op = "call" => \A j \in DOMAIN pend' : \A k \in DOMAIN pend \ DOMAIN pend' : k[1] <= j[1]]_vars
Complete == phase = "ended" => pend = None
====
