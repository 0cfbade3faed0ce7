---- MODULE Gc ----
(* Reference-counted objects with cycle collection.  alive: objects not yet
   freed; sl[o]: its K slots (0 or an object it holds a reference to), and one
   more for a reference that it does not show the collector, and that its free
   callback releases; ext[o]: references held from outside.  An object whose count drops to zero is freed
   at once, with everything only it kept alive; members of unreachable cycles
   may be freed by any later release (an automatic collection), and are freed by
   "done" at the latest.  Which garbage a collection frees, and when, is the
   implementation's choice: gone, the last argument of the actions that release
   references, is the set (as a sorted sequence) of all objects freed.
   Every thread has a collector of its own, for the objects that it made; it
   frees no others.  Thread Own(o) is the one that uses object o. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS N, K, T, MCExt, MCHold, MCCollect
VARIABLES alive, sl, ext, pads, ret
vars == <<alive, sl, ext, pads, ret>>
O == 1..N
Threads == 1..T
Own(o) == ((o - 1) * T) \div N + 1
Mine(t) == {o \in O : Own(o) = t}
NoPads == [t \in Threads |-> 0]
Slots == 1..K + 1
H == K + 1
NoSlots == [k \in Slots |-> 0]
Done(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
Init == alive = {} /\ sl = [o \in O |-> NoSlots] /\ ext = [o \in O |-> 0] /\ pads = NoPads /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == alive' = {} /\ sl' = [o \in O |-> NoSlots] /\ ext' = [o \in O |-> 0] /\ pads' = NoPads /\ Done("reset", <<>>, <<>>)
In(A, s, o) == Cardinality({x \in A \X Slots : s[x[1]][x[2]] = o})
Refs(A, s, e, o) == e[o] + In(A, s, o)
RECURSIVE Cascade(_, _, _)
(* repeatedly drop the objects nothing refers to *)
Cascade(A, s, e) == LET z == {o \in A : Refs(A, s, e, o) = 0} IN IF z = {} THEN A ELSE Cascade(A \ z, s, e)
RECURSIVE Grow(_, _)
Grow(R, s) == LET R2 == R \cup ({s[x[1]][x[2]] : x \in R \X Slots} \ {0}) IN IF R2 = R THEN R ELSE Grow(R2, s)
Reach(A, s, e) == Grow({o \in A : e[o] > 0}, s)
Live == Reach(alive, sl, ext)
(* the allowed outcomes of releasing references: every object without references
   is gone, every reachable one is still there, and the rest are consistent *)
Released(A, s, e, B) == /\ Reach(A, s, e) \subseteq B
                        /\ B \subseteq Cascade(A, s, e)
                        /\ Cascade(B, s, e) = B
                        /\ Grow(B, s) = B                 \* what remains refers to nothing freed
Seq2Set(q) == {q[i] : i \in DOMAIN q}
Release(op, t, a, s, e, gone) ==
    LET B == alive \ Seq2Set(gone)
    IN /\ gone = SetToSortSeq(Seq2Set(gone), <) /\ Seq2Set(gone) \subseteq alive \cap Mine(t)
       /\ Released(alive, s, e, B)
       /\ alive' = B /\ sl' = [o \in O |-> IF o \in B THEN s[o] ELSE NoSlots] /\ ext' = e
       /\ Done(op, Append(a, gone), <<>>)
New(o, cs) == o \notin alive /\ Seq2Set(cs) \subseteq (Live \cap Mine(Own(o))) \cup {0}
    /\ Len(cs) = K /\ alive' = alive \cup {o} /\ sl' = [sl EXCEPT ![o] = Append(cs, 0)] /\ ext' = [ext EXCEPT ![o] = 1] /\ UNCHANGED pads /\ Done("new", <<o, cs>>, <<>>)
Inc(o) == o \in Live /\ ext' = [ext EXCEPT ![o] = @ + 1] /\ UNCHANGED <<alive, sl, pads>> /\ Done("inc", <<o>>, <<>>)
Dec(o, gone) == ext[o] > 0 /\ UNCHANGED pads /\ Release("dec", Own(o), <<o>>, sl, [ext EXCEPT ![o] = @ - 1], gone)
Set(o, k, t, gone) == k \in 1..K /\ o \in Live /\ t \in (Live \cap Mine(Own(o))) \cup {0} /\ UNCHANGED pads /\ Release("set", Own(o), <<o, k, t>>, [sl EXCEPT ![o][k] = t], ext, gone)
(* moving a reference between a slot and the outside, without changing counts *)
Give(o, k, t) == /\ Own(o) = Own(t) /\ k \in 1..K /\ o \in Live /\ ext[t] > 0 /\ sl[o][k] = 0
                 /\ LET s == [sl EXCEPT ![o][k] = t]  e == [ext EXCEPT ![t] = @ - 1]
                    IN Reach(alive, s, e) = Live /\ sl' = s /\ ext' = e
                 /\ UNCHANGED <<alive, pads>> /\ Done("give", <<o, k, t>>, <<>>)
Take(o, k) == /\ k \in 1..K /\ o \in Live /\ sl[o][k] # 0
              /\ sl' = [sl EXCEPT ![o][k] = 0] /\ ext' = [ext EXCEPT ![sl[o][k]] = @ + 1]
              /\ UNCHANGED <<alive, pads>> /\ Done("take", <<o, k>>, <<>>)
(* the reference that only o's free callback knows of *)
Hold(o, t) == /\ Own(o) = Own(t) /\ o \in Live /\ ext[t] > 0 /\ sl[o][H] = 0
              /\ LET s == [sl EXCEPT ![o][H] = t]  e == [ext EXCEPT ![t] = @ - 1]
                 IN Reach(alive, s, e) = Live /\ sl' = s /\ ext' = e
              /\ UNCHANGED <<alive, pads>> /\ Done("hold", <<o, t>>, <<>>)
Unhold(o) == /\ o \in Live /\ sl[o][H] # 0
             /\ sl' = [sl EXCEPT ![o][H] = 0] /\ ext' = [ext EXCEPT ![sl[o][H]] = @ + 1]
             /\ UNCHANGED <<alive, pads>> /\ Done("unhold", <<o>>, <<>>)
(* garbage that a hidden reference from garbage keeps: only a cycle through a
   hidden reference is never freed *)
Shown(s) == [o \in O |-> [s[o] EXCEPT ![H] = 0]]
RECURSIVE KeptBy(_, _)
KeptBy(C, s) == LET D == Grow({s[i][H] : i \in C} \ {0}, Shown(s)) \cap C IN IF D = C THEN C ELSE KeptBy(D, s)
Lost == KeptBy(alive \ Live, sl)
(* pads: objects of the harness, all live, each a candidate root of a cycle *)
Pad(t, n, gone) == pads' = [pads EXCEPT ![t] = @ + n] /\ Release("pad", t, <<t, n>>, sl, ext, gone)
Unpad(t, gone) == pads' = [pads EXCEPT ![t] = 0] /\ Release("unpad", t, <<t>>, sl, ext, gone)
(* shutting a thread's collector down frees all of its garbage *)
Fin(t, gone) == Seq2Set(gone) = (alive \cap Mine(t)) \ (Live \cup Lost) /\ UNCHANGED pads /\ Release("done", t, <<t>>, sl, ext, gone)
DecNull == UNCHANGED <<alive, sl, ext, pads>> /\ Done("decnull", <<>>, <<>>)
Do(op, a) ==
    CASE op = "new" -> New(a[1], a[2]) [] op = "inc" -> Inc(a[1]) [] op = "dec" -> Dec(a[1], a[2])
      [] op = "set" -> Set(a[1], a[2], a[3], a[4]) [] op = "give" -> Give(a[1], a[2], a[3]) [] op = "take" -> Take(a[1], a[2])
      [] op = "pad" -> Pad(a[1], a[2], a[3]) [] op = "hold" -> Hold(a[1], a[2]) [] op = "unhold" -> Unhold(a[1])
      [] op = "unpad" -> Unpad(a[1], a[2]) [] op = "done" -> Fin(a[1], a[2]) [] op = "decnull" -> DecNull
(* 1: alive with its own content, 0: freed; memory kept when nothing is alive;
   whether the harness's objects are all alive *)
Obs == <<[o \in O |-> IF o \in alive THEN 1 ELSE 0], [t \in Threads |-> pads[t]], 0>>
Outcomes(t, A, s, e) == IF MCCollect THEN {A \ B : B \in {X \in {(A \ Mine(t)) \cup Y : Y \in SUBSET (A \cap Mine(t))} : Released(A, s, e, X)}} ELSE {A \ Cascade(A, s, e)}
Q(S) == SetToSortSeq(S, <)
Next ==
    \/ \E o \in O, cs \in [1..K -> 0..N] : New(o, cs)
    \/ \E o \in O : ext[o] < MCExt /\ Inc(o)
    \/ \E o \in O : ext[o] > 0 /\ \E g \in Outcomes(Own(o), alive, sl, [ext EXCEPT ![o] = @ - 1]) : Dec(o, Q(g))
    \/ \E o \in O, k \in 1..K, t \in 0..N : \E g \in Outcomes(Own(o), alive, [sl EXCEPT ![o][k] = t], ext) : Set(o, k, t, Q(g))
    \/ \E o \in O, k \in 1..K, t \in O : Give(o, k, t)
    \/ \E o \in O, k \in 1..K : (sl[o][k] # 0 => ext[sl[o][k]] < MCExt) /\ Take(o, k)
    \/ MCHold /\ \E o, t \in O : Hold(o, t)
    \/ \E t \in Threads : Fin(t, Q((alive \cap Mine(t)) \ (Live \cup Lost)))
Spec == Init /\ [][Next]_vars
View == <<alive, sl, ext, pads>>
Emit == PrintT("E" \o ToJson(<<ToString(View), ret'.op, ret'.a, ret'.r, Obs', ToString(View')>>))
(* a freed object is referred to by no live object and by nothing outside *)
Safe == /\ \A o \in O : ext[o] > 0 => o \in alive
        /\ \A o \in Live : \A k \in Slots : sl[o][k] # 0 => sl[o][k] \in alive
        /\ \A o \in alive : \A k \in Slots : sl[o][k] # 0 => sl[o][k] \in alive
(* without cycles nothing lingers, and shutting down leaves no garbage *)
Prompt == \A o \in alive : Refs(alive, sl, ext, o) > 0
Complete == ret.op = "done" => LET M == Mine(ret.a[1]) \cap alive IN
    /\ \A o \in M \ Live : o \in Lost
    /\ (\A o \in alive : sl[o][H] = 0) => M \subseteq Live
(* a thread's step frees only what is its own *)
OwnOnly == [][\A o \in alive \ alive' : Own(o) = IF ret'.op = "done" THEN ret'.a[1] ELSE Own(ret'.a[1])]_vars
====
