---- MODULE Alloc ----
(* Allocators.  cfg says which allocator is in use: 0 the standard one, 1 a user's
   own, installed, which supplies the methods in the set (xmalloc and free always),
   2 the debugging allocator on top of that, 3 the debugging allocator on top of
   the standard one, 4 the user's own, used directly.  blk holds the blocks: each
   has a kind and a size.  The user's allocator knows what it has given away. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NOBJ, MCConfigs, MCSizes, MCCounts, MCOps
VARIABLES cfg, blk, ret
vars == <<cfg, blk, ret>>
Say(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
Init == cfg = <<0, {}>> /\ blk = [i \in 1..NOBJ |-> <<>>] /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == cfg' = <<0, {}>> /\ blk' = [i \in 1..NOBJ |-> <<>>] /\ Say("reset", <<>>, <<>>)
Limit == 1048576
(* negative numbers stand for ones beyond 2^31 *)
TooBig(n) == n < 0 \/ n > Limit
Times(c, s) == IF c = 0 \/ s = 0 THEN 0 ELSE IF c < 0 \/ s < 0 THEN -1 ELSE IF c > Limit \/ s > Limit THEN -1 ELSE IF c > Limit \div s THEN -1 ELSE c * s
Elems(seq) == {seq[i] : i \in 1..Len(seq)}
(* is a call passed on to the user's own method of that name? *)
Via(m) == IF cfg[1] \in {1, 4} /\ m \in cfg[2] \ {"xmalloc", "free"} THEN 1 ELSE 0
Free(i) == i \in 1..NOBJ /\ blk[i] = <<>>
Mem(i) == i \in 1..NOBJ /\ blk[i] # <<>> /\ blk[i][1] = "mem"
Str(i) == i \in 1..NOBJ /\ blk[i] # <<>> /\ blk[i][1] = "str"
New(i, kind, n) == blk' = [blk EXCEPT ![i] = <<kind, n>>]
Give(op, a, m, i, kind, n, fault) ==
    IF fault = 1 \/ TooBig(n) THEN UNCHANGED blk /\ Say(op, a, <<"null", Via(m)>>)
    ELSE New(i, kind, n) /\ Say(op, a, <<"ok", Via(m)>>)
Do(op, a) ==
    CASE op = "config" -> (\A i \in 1..NOBJ : Free(i)) /\ cfg' = <<a[1], Elems(a[2])>> /\ UNCHANGED blk /\ Say(op, a, <<>>)
      (* guaranteed: slot, size; recoverable: and whether the system's memory is exhausted *)
      [] op = "malloc" -> Free(a[1]) /\ ~TooBig(a[2]) /\ New(a[1], "mem", a[2]) /\ UNCHANGED cfg /\ Say(op, a, <<"ok", Via("malloc")>>)
      [] op = "xmalloc" -> Free(a[1]) /\ Give(op, a, "xmalloc", a[1], "mem", a[2], a[3]) /\ UNCHANGED cfg
      [] op = "calloc" -> Free(a[1]) /\ ~TooBig(Times(a[2], a[3])) /\ New(a[1], "mem", Times(a[2], a[3])) /\ UNCHANGED cfg /\ Say(op, a, <<"ok", Via("calloc")>>)
      [] op = "xcalloc" -> Free(a[1]) /\ Give(op, a, "xcalloc", a[1], "mem", Times(a[2], a[3]), a[4]) /\ UNCHANGED cfg
      [] op = "realloc" -> (Free(a[1]) \/ Mem(a[1])) /\ ~TooBig(a[2]) /\ New(a[1], "mem", a[2]) /\ UNCHANGED cfg /\ Say(op, a, <<"ok", Via("realloc")>>)
      [] op = "xrealloc" -> (Free(a[1]) \/ Mem(a[1])) /\ Give(op, a, "xrealloc", a[1], "mem", a[2], a[3]) /\ UNCHANGED cfg
      [] op = "xreallocf" ->
           /\ Free(a[1]) \/ Mem(a[1])
           /\ UNCHANGED cfg
           /\ IF a[3] = 1 \/ TooBig(a[2]) THEN blk' = [blk EXCEPT ![a[1]] = <<>>] /\ Say(op, a, <<"null", Via("xrealloc")>>)
              ELSE New(a[1], "mem", a[2]) /\ Say(op, a, <<"ok", Via("xrealloc")>>)
      [] op = "free" -> Mem(a[1]) /\ blk' = [blk EXCEPT ![a[1]] = <<>>] /\ UNCHANGED cfg /\ Say(op, a, <<"ok", Via("free")>>)
      (* with an element size, of which the block's size is a multiple *)
      [] op = "cfree" -> Mem(a[1]) /\ Times(a[2], a[3]) = blk[a[1]][2] /\ blk' = [blk EXCEPT ![a[1]] = <<>>] /\ UNCHANGED cfg /\ Say(op, a, <<"ok", Via("free")>>)
      (* strings: slot, length *)
      [] op \in {"strdup", "strndup"} -> Free(a[1]) /\ New(a[1], "str", a[2]) /\ UNCHANGED cfg /\ Say(op, a, <<"ok", 0>>)
      [] op \in {"xstrdup", "xstrndup"} -> Free(a[1]) /\ UNCHANGED cfg /\ Say(op, a, <<IF a[3] = 1 THEN "null" ELSE "ok", 0>>)
                                            /\ IF a[3] = 1 THEN UNCHANGED blk ELSE New(a[1], "str", a[2])
      [] op = "strfree" -> Str(a[1]) /\ blk' = [blk EXCEPT ![a[1]] = <<>>] /\ UNCHANGED cfg /\ Say(op, a, <<"ok", 0>>)
      (* a guaranteed form never returns without memory: it aborts the process (a: which, slot, size or count and size) *)
      [] op = "exhaust" -> UNCHANGED <<cfg, blk>> /\ Say(op, a, <<"aborted", 0>>)
      (* the debugging allocator does not accept a wrong size (a: slot, how it is released, the wrong size) *)
      [] op = "wrong" -> cfg[1] \in {2, 3} /\ Mem(a[1]) /\ a[3] # blk[a[1]][2] /\ UNCHANGED <<cfg, blk>> /\ Say(op, a, <<"aborted", 0>>)
      [] OTHER -> FALSE
(* the blocks; how many the user's allocator holds; how often something was released that it did not hold, or with another size *)
Obs == <<blk, IF cfg[1] \in {0, 3} THEN 0 ELSE Cardinality({i \in 1..NOBJ : ~Free(i)}), 0>>
Slots == 1..NOBJ
Faults == IF cfg[1] \in {0, 3} THEN {0} ELSE {0, 1}
Ops == {<<"config", c>> : c \in {d \in MCConfigs : cfg[1] = 0 /\ cfg[2] = {} /\ d[1] # 0}}
       \cup {<<op, <<i, n>>>> : op \in {"malloc", "realloc"}, i \in Slots, n \in MCSizes}
       \cup {<<op, <<i, n, f>>>> : op \in {"xmalloc", "xrealloc", "xreallocf"}, i \in Slots, n \in MCSizes \cup {-1, -3}, f \in Faults}
       \cup {<<"calloc", <<i, c, n>>>> : i \in Slots, c \in MCCounts, n \in MCCounts} \cup {<<"xcalloc", <<i, c, n, f>>>> : i \in Slots, c \in MCCounts \cup {-1, -3}, n \in MCCounts \cup (IF cfg[1] \in {0, 3} THEN {-2} ELSE {-2, -4}), f \in Faults}
       \cup {<<op, <<i>>>> : op \in {"free", "strfree"}, i \in Slots} \cup {<<"cfree", <<i, c, n>>>> : i \in Slots, c \in MCCounts, n \in MCCounts}
       \cup {<<op, <<i, n>>>> : op \in {"strdup", "strndup"}, i \in Slots, n \in MCSizes} \cup {<<op, <<i, n, f>>>> : op \in {"xstrdup", "xstrndup"}, i \in Slots, n \in MCSizes, f \in Faults}
Next == \E o \in Ops : o[1] \in MCOps /\ Do(o[1], o[2]) /\ \A i \in Slots : blk'[i] = <<>> \/ blk'[i][2] \in MCSizes
Spec == Init /\ [][Next]_vars
View == <<cfg, blk>>
Emit == PrintT("E" \o ToJson(<<ToString(View), ret'.op, ret'.a, ret'.r, Obs', ToString(View')>>))
(* a failure leaves everything as it was, or (for the freeing form) frees just the block in question *)
Failing == [][ret'.r # <<>> /\ ret'.r[1] = "null" => \A i \in Slots : blk'[i] # blk[i] => ret'.op = "xreallocf" /\ i = ret'.a[1] /\ blk'[i] = <<>>]_vars
Balance == [][Obs'[2] - Obs[2] \in {-1, 0, 1}]_<<blk>>
Frame == [][\A i \in Slots : blk'[i] # blk[i] => i = ret'.a[1]]_vars
====
