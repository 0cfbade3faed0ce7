---- MODULE Once ----
(* Once-barriers.  Threads enter a barrier; the statement it guards begins and
   ends; threads pass.  A history is allowed if the guarded statement runs
   exactly once per barrier, in a thread that has entered and not passed, and
   nobody passes before it has ended - except, at a recursive barrier, the very
   thread that is running the guarded statement.

   st[b]: 0 not started, 1 running, 2 done; by[b]: who runs it; in[t]: the
   barriers t has entered and not passed (a stack, as entries nest). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NT, NB, Recursive, MCDepth
VARIABLES st, by, in, done, ret
vars == <<st, by, in, done, ret>>
Threads == 1..NT
Bs == 0..NB - 1
Init == /\ st = [b \in Bs |-> 0] /\ by = [b \in Bs |-> 0] /\ in = [t \in Threads |-> <<>>] /\ done = 0
        /\ ret = [op |-> "init", a |-> <<>>, r |-> 0]
Reset == /\ st' = [b \in Bs |-> 0] /\ by' = [b \in Bs |-> 0] /\ in' = [t \in Threads |-> <<>>] /\ done' = 0
         /\ ret' = [op |-> "reset", a |-> <<>>, r |-> <<>>]
Top(t) == in[t][Len(in[t])]
Running(t) == {b \in Bs : st[b] = 1 /\ by[b] = t}
Out(op, t, b) == ret' = [op |-> op, a |-> <<t, b>>, r |-> 0]
(* entering a plain barrier whose statement one is running oneself is not allowed *)
Enter(t, b) ==
    /\ b \in Running(t) => b \in Recursive
    /\ (Len(in[t]) > 0 => Running(t) # {})
    /\ in' = [in EXCEPT ![t] = Append(@, b)] /\ UNCHANGED <<st, by, done>> /\ Out("enter", t, b)
Begin(t, b) ==
    /\ Len(in[t]) > 0 /\ Top(t) = b /\ st[b] = 0
    /\ st' = [st EXCEPT ![b] = 1] /\ by' = [by EXCEPT ![b] = t] /\ UNCHANGED <<in, done>> /\ Out("begin", t, b)
End(t, b) ==
    /\ Len(in[t]) > 0 /\ Top(t) = b /\ b \in Running(t)
    /\ Cardinality({i \in 1..Len(in[t]) : in[t][i] = b}) = 1                     \* everything nested has passed
    /\ st' = [st EXCEPT ![b] = 2] /\ UNCHANGED <<by, in, done>> /\ Out("end", t, b)
Pass(t, b) ==
    /\ Len(in[t]) > 0 /\ Top(t) = b
    /\ \/ st[b] = 2
       \/ b \in Recursive /\ b \in Running(t) /\ Cardinality({i \in 1..Len(in[t]) : in[t][i] = b}) > 1
    /\ in' = [in EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED <<st, by, done>> /\ Out("pass", t, b)
(* the run is over: everybody got through, and nothing leaked *)
Exit == /\ done = 0 /\ \A t \in Threads : in[t] = <<>> /\ done' = 1
        /\ \A b \in Bs : st[b] # 1
        /\ UNCHANGED <<st, by, in>> /\ ret' = [op |-> "exit", a |-> <<>>, r |-> 0]
Do(op, a) ==
    CASE op = "enter" -> Enter(a[1], a[2]) [] op = "begin" -> Begin(a[1], a[2])
      [] op = "end" -> End(a[1], a[2]) [] op = "pass" -> Pass(a[1], a[2]) [] op = "exit" -> Exit
      [] OTHER -> FALSE                                                          \* crash, deadlock, ...
Obs == <<>>
Next == \E t \in Threads, b \in Bs : (Len(in[t]) < MCDepth /\ done = 0 /\ Enter(t, b)) \/ Begin(t, b) \/ End(t, b) \/ Pass(t, b) \/ Exit
Spec == Init /\ [][Next]_vars
View == <<st, by, in, done>>
(* the guarded statement runs at most once, and passing means it is over *)
OnceOnly == [][\A b \in Bs : (ret'.op = "begin" /\ ret'.a[2] = b) => st[b] = 0 /\ st'[b] = 1]_vars
NotBefore == [][(ret'.op = "pass") => (st[ret'.a[2]] = 2 \/ (ret'.a[2] \in Recursive /\ by[ret'.a[2]] = ret'.a[1]))]_vars
Forward == [][\A b \in Bs : st'[b] >= st[b]]_<<st, by, in>>
OneRunner == \A b \in Bs : st[b] = 1 => by[b] \in Threads
====
