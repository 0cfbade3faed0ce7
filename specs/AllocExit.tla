---- MODULE AllocExit ----
(* The life of allocators: each is made from a parent, and all are released when
   the process ends, the youngest first.  al is the sequence of allocators (number
   0, from which the first is made, is not released): parent and user data. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MCMax
VARIABLES al, phase, due, cl, ret
vars == <<al, phase, due, cl, ret>>
Say(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
Init == al = <<>> /\ phase = "main" /\ due = "ud" /\ cl = 0 /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == al' = <<>> /\ phase' = "main" /\ due' = "ud" /\ cl' = 0 /\ Say("reset", <<>>, <<>>)
Top == al[Len(al)]
Owns(x) == x.f = 1
Do(op, a) ==
    CASE op = "new" -> phase = "main" /\ a[1] \in 0..Len(al) /\ al' = Append(al, [p |-> a[1], ud |-> 0, f |-> 0]) /\ UNCHANGED <<phase, due, cl>> /\ Say(op, a, <<>>)
      (* a: allocator, data, whether it is to be freed; the data it had before is freed now (r) *)
      [] op = "data" ->
           /\ phase = "main" /\ a[1] \in 1..Len(al) /\ al' = [al EXCEPT ![a[1]] = [@ EXCEPT !.ud = a[2], !.f = a[3]]] /\ UNCHANGED <<phase, due, cl>>
           /\ Say(op, a, IF Owns(al[a[1]]) THEN <<al[a[1]].ud>> ELSE <<>>)
      (* a function to be called at exit; when it is, every allocator can still be used (a: which; r: whether it could) *)
      [] op = "cleanup" -> phase = "main" /\ al # <<>> /\ cl' = cl + 1 /\ UNCHANGED <<al, phase, due>> /\ Say(op, a, <<>>)
      [] op = "use" -> phase = "exit" /\ cl > 0 /\ a[1] \in 0..Len(al) /\ cl' = cl - 1 /\ UNCHANGED <<al, phase, due>> /\ Say(op, a, <<1>>)
      [] op = "exit" -> phase = "main" /\ phase' = "exit" /\ UNCHANGED <<al, due, cl>> /\ Say(op, a, <<>>)
      (* the data of the youngest is freed, and then it is itself released to its parent *)
      [] op = "ud" -> phase = "exit" /\ al # <<>> /\ cl = 0 /\ due = "ud" /\ Owns(Top) /\ a[1] = Top.ud /\ due' = "rel" /\ UNCHANGED <<al, phase, cl>> /\ Say(op, a, <<>>)
      [] op = "rel" -> phase = "exit" /\ al # <<>> /\ cl = 0 /\ (due = "rel" \/ ~Owns(Top)) /\ a[1] = Top.p /\ due' = "ud" /\ al' = SubSeq(al, 1, Len(al) - 1) /\ UNCHANGED <<phase, cl>> /\ Say(op, a, <<>>)
      (* a: what each allocator holds at the end, how often one was given back what it did not hold *)
      [] op = "end" -> phase = "exit" /\ al = <<>> /\ (\A i \in 1..Len(a[1]) : a[1][i] = 0) /\ a[2] = 0 /\ phase' = "over" /\ UNCHANGED <<al, due, cl>> /\ Say(op, a, <<>>)
      [] OTHER -> FALSE
Obs == <<>>
Next == \/ \E p \in 0..Len(al) : Len(al) < MCMax /\ Do("new", <<p>>)
        \/ \E i \in 1..Len(al), f \in {0, 1}, d \in 1..MCMax : (\A j \in 1..Len(al) : al[j].ud # d) /\ Do("data", <<i, d, f>>)
        \/ (cl < 1 /\ Do("cleanup", <<>>)) \/ (\E i \in 0..MCMax : Do("use", <<i>>))
        \/ Do("exit", <<>>) \/ (\E d \in 1..MCMax : Do("ud", <<d>>)) \/ (\E p \in 0..MCMax : Do("rel", <<p>>)) \/ Do("end", <<<<>>, 0>>)
Spec == Init /\ [][Next]_vars
View == <<al, phase, due, cl>>
(* no allocator is released before those that were made from it, nor while one might still be used *)
Children == [][Len(al') < Len(al) => ~(\E i \in 1..Len(al') : al'[i].p = Len(al)) /\ cl = 0]_vars
====
