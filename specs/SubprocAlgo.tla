---- MODULE SubprocAlgo ----
(* The waiting loop, with bounded pipes: why waiting terminates whatever order
   the children write, close and exit in.  Each child has a script (a sequence
   of streams to write one unit to, or to close) and pipes of capacity Cap; the
   parent's loop reads the streams in turn until each has nothing more to give
   (NonBlocking) or, if the pipes block, until the read returns. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Kids, MaxScript, Cap, NonBlocking
Streams == {1, 2}
Acts == {<<"w", 1>>, <<"w", 2>>, <<"c", 1>>, <<"c", 2>>}
Scripts == UNION {[1..n -> Acts] : n \in 0..MaxScript}
VARIABLES script, pc, pipe, open, alive, reaped, eof, got, at
vars == <<script, pc, pipe, open, alive, reaped, eof, got, at>>
Pos == Kids \X Streams
Valid(sc) == \A j \in 1..Len(sc), k \in 1..Len(sc) : (k < j /\ sc[k][1] = "c") => sc[j][2] # sc[k][2]
Init == /\ script \in [Kids -> {sc \in Scripts : Valid(sc)}]
        /\ pc = [k \in Kids |-> 1] /\ pipe = [p \in Pos |-> 0] /\ open = [p \in Pos |-> TRUE]
        /\ alive = [k \in Kids |-> TRUE] /\ reaped = [k \in Kids |-> FALSE]
        /\ eof = [p \in Pos |-> FALSE] /\ got = [p \in Pos |-> 0]
        /\ at = 1                                     \* which stream the parent is reading
Order == [i \in 1..(2 * Cardinality(Kids)) |-> <<((i + 1) \div 2), 2 - (i % 2)>>]
Child(k) ==
    /\ alive[k]
    /\ IF pc[k] > Len(script[k])
       THEN alive' = [alive EXCEPT ![k] = FALSE] /\ open' = [p \in Pos |-> IF p[1] = k THEN FALSE ELSE open[p]] /\ UNCHANGED <<pc, pipe>>
       ELSE LET act == script[k][pc[k]] p == <<k, act[2]>> IN
            /\ pc' = [pc EXCEPT ![k] = @ + 1]
            /\ IF act[1] = "w" THEN pipe[p] < Cap /\ pipe' = [pipe EXCEPT ![p] = @ + 1] /\ UNCHANGED <<open, alive>>
               ELSE open' = [open EXCEPT ![p] = FALSE] /\ UNCHANGED <<pipe, alive>>
    /\ UNCHANGED <<script, reaped, eof, got, at>>
Finished == (\A p \in Pos : eof[p]) /\ (\A k \in Kids : reaped[k])
Advance == at' = IF at = Len(Order) THEN 1 ELSE at + 1
Parent ==
    /\ ~Finished
    /\ LET p == Order[at] k == p[1] IN
       \/ eof[p] /\ Advance /\ reaped' = [reaped EXCEPT ![k] = @ \/ ~alive[k]] /\ UNCHANGED <<pipe, eof, got>>
       \/ ~eof[p] /\ pipe[p] > 0 /\ pipe' = [pipe EXCEPT ![p] = 0] /\ got' = [got EXCEPT ![p] = @ + pipe[p]] /\ UNCHANGED <<eof, reaped, at>>
       \/ ~eof[p] /\ pipe[p] = 0 /\ ~open[p] /\ eof' = [eof EXCEPT ![p] = TRUE] /\ Advance /\ reaped' = [reaped EXCEPT ![k] = @ \/ ~alive[k]] /\ UNCHANGED <<pipe, got>>
       \/ ~eof[p] /\ pipe[p] = 0 /\ open[p] /\ NonBlocking /\ Advance /\ reaped' = [reaped EXCEPT ![k] = @ \/ ~alive[k]] /\ UNCHANGED <<pipe, eof, got>>
    /\ UNCHANGED <<script, pc, open, alive>>
Next == (\E k \in Kids : Child(k)) \/ Parent \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Parent) /\ \A k \in Kids : WF_vars(Child(k))
Wrote(k, t) == Cardinality({j \in 1..Len(script[k]) : script[k][j] = <<"w", t>>})
Complete == Finished => \A p \in Pos : got[p] = Wrote(p[1], p[2])
Terminates == <>Finished
====
