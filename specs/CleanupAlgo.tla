---- MODULE CleanupAlgo ----
(* The library's algorithm: a list sorted by priority, into which a registration
   is inserted before the first entry of greater priority; at exit the first
   entry is unlinked, then called, until the list is empty.  Checked to
   implement Cleanup.  (Walking the list while calling - Pop = FALSE - loses
   functions registered by a cleanup function, which TLC finds.) *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MCFns, MCPrios, MCMax, Pop
VARIABLES list, pos, phase, running, ret, n
vars == <<list, pos, phase, running, ret, n>>
Count(l, k) == Cardinality({i \in 1..Len(l) : l[i] = k})
Left == IF Pop THEN list ELSE SubSeq(list, pos, Len(list))
Bag == [k \in {Left[i] : i \in 1..Len(Left)} |-> Count(Left, k)]
Abs == INSTANCE Cleanup WITH pend <- Bag
Say(op, a) == ret' = [op |-> op, a |-> a, r |-> <<>>]
Init == list = <<>> /\ pos = 1 /\ phase = "main" /\ running = <<>> /\ n = 0 /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
At(p) == IF \E i \in 1..Len(list) : list[i][1] > p THEN CHOOSE i \in 1..Len(list) : list[i][1] > p /\ \A j \in 1..(i - 1) : list[j][1] <= p ELSE Len(list) + 1
Reg(f, p) ==
    /\ n < MCMax /\ n' = n + 1
    /\ phase = "main" \/ running # <<>>
    /\ list' = SubSeq(list, 1, At(p) - 1) \o <<<<p, f>>>> \o SubSeq(list, At(p), Len(list))
    /\ UNCHANGED <<pos, phase, running>> /\ Say("reg", <<f, p>>)
Exit == phase = "main" /\ phase' = "exiting" /\ UNCHANGED <<list, pos, running, n>> /\ Say("exit", <<>>)
Call ==
    /\ phase = "exiting" /\ running = <<>> /\ Left # <<>>
    /\ running' = <<Left[1][2]>> /\ UNCHANGED <<phase, n>> /\ Say("call", <<Left[1][2]>>)
    /\ IF Pop THEN list' = Tail(list) /\ UNCHANGED pos ELSE pos' = pos + 1 /\ UNCHANGED list
Return == running # <<>> /\ running' = <<>> /\ UNCHANGED <<list, pos, phase, n>> /\ Say("return", running)
End == phase = "exiting" /\ running = <<>> /\ Left = <<>> /\ phase' = "ended" /\ UNCHANGED <<list, pos, running, n>> /\ ret' = [op |-> "end", a |-> <<0>>, r |-> <<0, 0>>]
Next == (\E f \in MCFns, p \in MCPrios : Reg(f, p)) \/ Exit \/ Call \/ Return \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Exit \/ Call \/ Return \/ End)
AbsNext == [][\E o \in {ret'} : Abs!Do(o.op, o.a)]_<<Bag, phase, running, ret>>
Ends == <>(phase = "ended")
====
