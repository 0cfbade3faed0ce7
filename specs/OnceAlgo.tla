---- MODULE OnceAlgo ----
(* The barrier's algorithm, one step per memory access: a three-valued word
   claimed and released by compare-and-swap, and (recursive form) the id of the
   initialising thread, written after the claim and read by the waiters.  Its
   histories are checked against module Once by refinement; the word's values
   are what harness/drv_conc.c's schedules interleave. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NT, Rec                      \* Rec: TRUE for the recursive form; the statement then re-enters once
VARIABLES pc, word, owner, depth, st, by, in
vars == <<pc, word, owner, depth, st, by, in>>
Threads == 1..NT
Init == /\ pc = [t \in Threads |-> "out"] /\ word = 0 /\ owner = 0 /\ depth = [t \in Threads |-> 0]
        /\ st = 0 /\ by = 0 /\ in = [t \in Threads |-> 0]
Step(t, from, to) == pc[t] = from /\ pc' = [pc EXCEPT ![t] = to]
Enter(t) == Step(t, "out", "fast") /\ in[t] = 0 /\ in' = [in EXCEPT ![t] = 1] /\ UNCHANGED <<word, owner, depth, st, by>>
Fast(t) == /\ pc[t] = "fast" /\ pc' = [pc EXCEPT ![t] = IF word = 2 THEN "pass" ELSE "claim"] /\ UNCHANGED <<word, owner, depth, st, by, in>>
Claim(t) == /\ pc[t] = "claim"
            /\ IF word = 0 THEN word' = 1 /\ pc' = [pc EXCEPT ![t] = IF Rec THEN "own" ELSE "begin"]
               ELSE word' = word /\ pc' = [pc EXCEPT ![t] = IF Rec THEN "who" ELSE "spin"]
            /\ UNCHANGED <<owner, depth, st, by, in>>
Own(t) == Step(t, "own", "begin") /\ owner' = t /\ UNCHANGED <<word, depth, st, by, in>>
Begin(t) == Step(t, "begin", IF Rec THEN "reenter" ELSE "end") /\ st' = 1 /\ by' = t /\ UNCHANGED <<word, owner, depth, in>>
Reenter(t) == Step(t, "reenter", "fast") /\ depth' = [depth EXCEPT ![t] = 1] /\ in' = [in EXCEPT ![t] = 2] /\ UNCHANGED <<word, owner, st, by>>
Who(t) == /\ pc[t] = "who" /\ pc' = [pc EXCEPT ![t] = IF owner = t THEN "pass" ELSE "spin"] /\ UNCHANGED <<word, owner, depth, st, by, in>>
Spin(t) == pc[t] = "spin" /\ word = 2 /\ pc' = [pc EXCEPT ![t] = "pass"] /\ UNCHANGED <<word, owner, depth, st, by, in>>
End(t) == Step(t, "end", "release") /\ st' = 2 /\ UNCHANGED <<word, owner, depth, by, in>>
Release(t) == Step(t, "release", "pass") /\ word' = 2 /\ UNCHANGED <<owner, depth, st, by, in>>
Pass(t) == /\ pc[t] = "pass"
           /\ IF depth[t] = 1 THEN pc' = [pc EXCEPT ![t] = "end"] /\ depth' = [depth EXCEPT ![t] = 0] /\ in' = [in EXCEPT ![t] = 1]
              ELSE pc' = [pc EXCEPT ![t] = "done"] /\ depth' = depth /\ in' = [in EXCEPT ![t] = 0]
           /\ UNCHANGED <<word, owner, st, by>>
Next == \E t \in Threads : Enter(t) \/ Fast(t) \/ Claim(t) \/ Own(t) \/ Begin(t) \/ Reenter(t) \/ Who(t) \/ Spin(t) \/ End(t) \/ Release(t) \/ Pass(t)
Fair == \A t \in Threads : WF_vars(Enter(t) \/ Fast(t) \/ Claim(t) \/ Own(t) \/ Begin(t) \/ Reenter(t) \/ Who(t) \/ Spin(t) \/ End(t) \/ Release(t) \/ Pass(t))
Spec == Init /\ [][Next]_vars /\ Fair
Refines ==                      \* every change of the visible state is a step of the abstract barrier
    [][\E t \in Threads :
         \/ in' = [in EXCEPT ![t] = @ + 1] /\ st' = st /\ (in[t] > 0 => (Rec /\ by = t /\ st = 1))
         \/ st = 0 /\ st' = 1 /\ by' = t /\ in[t] = 1 /\ in' = in
         \/ st = 1 /\ st' = 2 /\ by = t /\ in[t] = 1 /\ in' = in
         \/ in' = [in EXCEPT ![t] = @ - 1] /\ st' = st /\ (st = 2 \/ (Rec /\ by = t /\ in[t] = 2))]_<<st, by, in>>
Everyone == <>(\A t \in Threads : pc[t] = "done")
====
