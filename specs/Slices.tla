---- MODULE Slices ----
(* Slices of static, copy-once, managed and buffer-backed content, and the
   managed buffers behind them.  Negative offsets or lengths stand for huge
   unsigned values (so that sums overflow): never a valid window.

   A slice: k = 0 none, 1 static, 2 copy-once, 3 managed by m, 4 private copy
   made by copying a copy-once slice; d content; [off, off+len) window; lt: the
   slice it is a light copy of; own: it is the original of a copy-once slice.
   A managed buffer: st 1 live; h direct references; k 1 wrapped (its free
   function is observed), 2 copied, 3 made from a buffer; d content. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NS, NM, Size, Data, MCOffs, MCKinds, MCMaxH
VARIABLES sl, mb, ret
vars == <<sl, mb, ret>>
None == [k |-> 0, d |-> 1, off |-> 0, len |-> 0, m |-> 0, lt |-> 0, own |-> 0]
NoMb == [st |-> 0, h |-> 0, k |-> 1, d |-> 1]
S == 1..NS
M == 1..NM
Valid(off, len, size) == off >= 0 /\ len >= 0 /\ off + len <= size
Done(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
Init == sl = [i \in S |-> None] /\ mb = [m \in M |-> NoMb] /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == sl' = [i \in S |-> None] /\ mb' = [m \in M |-> NoMb] /\ Done("reset", <<>>, <<>>)
Ok == <<0, 0>>          \* return value, error reported
Err == <<-1, 1>>
Refs(s, b, m) == b[m].h + Cardinality({i \in S : s[i].k = 3 /\ s[i].m = m})
(* the state after dropping references: freed wrapped buffers are reported *)
Settle(op, a, rc, s, b, extra) ==
    LET dead == {m \in M : b[m].st = 1 /\ Refs(s, b, m) = 0}
    IN /\ sl' = s
       /\ mb' = [m \in M |-> IF m \in dead THEN NoMb ELSE b[m]]
       /\ Done(op, a, <<rc, [m \in M |-> IF m \in dead /\ b[m].k = 1 THEN 1 ELSE 0], extra>>)
Keep(op, a, rc, extra) == Settle(op, a, rc, sl, mb, extra)
NewSlice(op, a, i, rec) == sl[i].k = 0 /\ Settle(op, a, Ok, [sl EXCEPT ![i] = rec], mb, 0)
Static(i, d) == NewSlice("static", <<i, d>>, i, [None EXCEPT !.k = 1, !.d = d, !.len = Size])
Once(i, d) == NewSlice("once", <<i, d>>, i, [None EXCEPT !.k = 2, !.d = d, !.len = Size, !.own = 1])
MNew(m, k, d) == mb[m].st = 0 /\ k # 3 /\ Settle("mnew", <<m, k, d>>, Ok, sl, [mb EXCEPT ![m] = [NoMb EXCEPT !.st = 1, !.h = 1, !.k = k, !.d = d]], 0)
MBuf(m, d) == mb[m].st = 0 /\ Settle("mbuf", <<m, d>>, Ok, sl, [mb EXCEPT ![m] = [NoMb EXCEPT !.st = 1, !.h = 1, !.k = 3, !.d = d]], 0)
(* cork_buffer_to_slice: the slice holds the only reference *)
BufSlice(i, m, d) == sl[i].k = 0 /\ mb[m].st = 0 /\
    Settle("bufslice", <<i, m, d>>, Ok, [sl EXCEPT ![i] = [None EXCEPT !.k = 3, !.d = d, !.len = Size, !.m = m]],
           [mb EXCEPT ![m] = [NoMb EXCEPT !.st = 1, !.h = 0, !.k = 3, !.d = d]], 0)
MRef(m) == mb[m].st = 1 /\ mb[m].h > 0 /\ Settle("mref", <<m>>, Ok, sl, [mb EXCEPT ![m].h = @ + 1], 0)
MUnref(m) == mb[m].st = 1 /\ mb[m].h > 0 /\ Settle("munref", <<m>>, Ok, sl, [mb EXCEPT ![m].h = @ - 1], 0)
MSlice(op, i, m, off, len0) ==
    LET len == IF op = "mslo" THEN (IF off >= 0 /\ off <= Size THEN Size - off ELSE -1) ELSE len0
    IN /\ sl[i].k = 0 /\ mb[m].st = 1 /\ mb[m].h > 0
       /\ IF Valid(off, len, Size)
          THEN Settle(op, <<i, m, off, len0>>, Ok, [sl EXCEPT ![i] = [None EXCEPT !.k = 3, !.d = mb[m].d, !.off = off, !.len = len, !.m = m]], mb, 0)
          ELSE Keep(op, <<i, m, off, len0>>, Err, 1)        \* 1: destination is empty
MSliceNull(op, i, off, len) == sl[i].k = 0 /\ Keep(op, <<i, off, len>>, Err, 1)
(* copying slice j into i; op: copy, copyo (to the end), lcopy, lcopyo, and the
   unchecked copyf/lcopyf, which require a valid window *)
Copy(op, i, j, off, len0) ==
    LET toend == op \in {"copyo", "lcopyo"}
        fast == op \in {"copyf", "lcopyf", "copyof", "lcopyof"}
        light == op \in {"lcopy", "lcopyo", "lcopyf", "lcopyof"}
        len == IF op \in {"copyo", "lcopyo", "copyof", "lcopyof"} THEN (IF off >= 0 /\ off <= sl[j].len THEN sl[j].len - off ELSE -1) ELSE len0
        ok == Valid(off, len, sl[j].len)
        rec == [None EXCEPT !.k = sl[j].k, !.d = sl[j].d, !.off = sl[j].off + off, !.len = len, !.m = sl[j].m,
                            !.lt = IF light THEN j ELSE 0]
    IN /\ i # j /\ sl[i].k = 0 /\ sl[j].k # 0
       /\ fast => ok
       /\ IF ~ok THEN Keep(op, <<i, j, off, len0>>, Err, 1)
          ELSE IF ~light /\ sl[j].k = 2       \* the one copy is made now; both use it
          THEN Settle(op, <<i, j, off, len0>>, Ok, [sl EXCEPT ![i] = [rec EXCEPT !.k = 4], ![j].k = 4], mb, 0)
          ELSE Settle(op, <<i, j, off, len0>>, Ok, [sl EXCEPT ![i] = rec], mb, 0)
CopyNull(op, i, off, len) == sl[i].k = 0 /\ Keep(op, <<i, off, len>>, Err, 1)
(* re-slicing; "adv" reports whether the old start was returned *)
Slice(op, i, off, len0) ==
    LET len == IF op \in {"sliceo", "sliceof", "adv", "advf"} THEN (IF off >= 0 /\ off <= sl[i].len THEN sl[i].len - off ELSE -1) ELSE len0
        ok == Valid(off, len, sl[i].len)
        fast == op \in {"slicef", "sliceof", "advf"}
    IN /\ sl[i].k # 0 /\ (fast => ok)
       /\ IF ok THEN Settle(op, <<i, off, len0>>, Ok, [sl EXCEPT ![i].off = @ + off, ![i].len = len], mb, IF op \in {"adv", "advf"} THEN 1 ELSE 0)
          ELSE Keep(op, <<i, off, len0>>, Err, 0)
SliceNull(op, off) == Keep(op, <<off>>, Err, 0)
NoLight(i) == \A j \in S : sl[j].k # 0 => sl[j].lt # i
Finish(i) == sl[i].k # 0 /\ NoLight(i) /\ Settle("finish", <<i>>, Ok, [sl EXCEPT ![i] = None], mb, 1)
Window(x) == SubSeq(Data[x.d], x.off + 1, x.off + x.len)
Eq(i, j) == sl[i].k # 0 /\ sl[j].k # 0 /\ Keep("eq", <<i, j>>, Ok, IF Window(sl[i]) = Window(sl[j]) THEN 1 ELSE 0)
Do(op, a) ==
    CASE op = "static" -> Static(a[1], a[2]) [] op = "once" -> Once(a[1], a[2])
      [] op = "mnew" -> MNew(a[1], a[2], a[3]) [] op = "mbuf" -> MBuf(a[1], a[2])
      [] op = "bufslice" -> BufSlice(a[1], a[2], a[3])
      [] op = "mref" -> MRef(a[1]) [] op = "munref" -> MUnref(a[1])
      [] op \in {"msl", "mslo"} -> MSlice(op, a[1], a[2], a[3], a[4])
      [] op \in {"msln", "mslon"} -> MSliceNull(op, a[1], a[2], a[3])
      [] op \in {"copy", "copyo", "lcopy", "lcopyo", "copyf", "lcopyf", "copyof", "lcopyof"} -> Copy(op, a[1], a[2], a[3], a[4])
      [] op \in {"copyn", "copyon", "lcopyn", "lcopyon"} -> CopyNull(op, a[1], a[2], a[3])
      [] op \in {"slice", "sliceo", "slicef", "sliceof", "adv", "advf"} -> Slice(op, a[1], a[2], a[3])
      [] op \in {"slicen", "sliceon", "advn"} -> SliceNull(op, a[1])
      [] op = "finish" -> Finish(a[1]) [] op = "eq" -> Eq(a[1], a[2])
(* every slice's bytes; the last entry: memory still allocated although nothing
   is alive any more *)
Obs == <<[i \in S |-> IF sl[i].k = 0 THEN <<-1>> ELSE <<sl[i].len>> \o Window(sl[i])], 0>>
D == DOMAIN Data
CONSTANTS MCCopyOps, MCSliceOps, MCNullOps
Ops == {<<"static", <<i, d>>>> : i \in IF "static" \in MCKinds THEN S ELSE {}, d \in D}
   \cup {<<"once", <<i, d>>>> : i \in IF "once" \in MCKinds THEN S ELSE {}, d \in D}
   \cup {<<"mnew", <<m, k, d>>>> : m \in M, k \in {1, 2} \cap MCMaxH[2], d \in D}
   \cup {<<"mbuf", <<m, d>>>> : m \in IF 3 \in MCMaxH[2] THEN M ELSE {}, d \in D}
   \cup {<<"bufslice", <<i, m, d>>>> : i \in S, m \in IF 3 \in MCMaxH[2] THEN M ELSE {}, d \in D}
   \cup {<<o, <<m>>>> : o \in {"mref", "munref"}, m \in M}
   \cup {<<o, <<i, m, x, y>>>> : o \in {"msl"}, i \in S, m \in M, x \in MCOffs, y \in MCOffs}
   \cup {<<o, <<i, m, x, 0>>>> : o \in {"mslo"}, i \in S, m \in M, x \in MCOffs}
   \cup {<<o, <<i, j, x, y>>>> : o \in MCCopyOps \cap {"copy", "lcopy", "copyf", "lcopyf"}, i \in S, j \in S, x \in MCOffs, y \in MCOffs}
   \cup {<<o, <<i, j, x, 0>>>> : o \in MCCopyOps \cap {"copyo", "lcopyo", "copyof", "lcopyof"}, i \in S, j \in S, x \in MCOffs}
   \cup {<<o, <<i, x, y>>>> : o \in MCSliceOps \cap {"slice", "slicef"}, i \in S, x \in MCOffs, y \in MCOffs}
   \cup {<<o, <<i, x, 0>>>> : o \in MCSliceOps \cap {"sliceo", "sliceof", "adv", "advf"}, i \in S, x \in MCOffs}
   \cup {<<o, <<i, x, 0>>>> : o \in MCNullOps \cap {"copyn", "copyon", "lcopyn", "lcopyon", "msln", "mslon"}, i \in S, x \in {0, 1}}
   \cup {<<o, <<x>>>> : o \in MCNullOps \cap {"slicen", "sliceon", "advn"}, x \in {0, 1}}
   \cup {<<"finish", <<i>>>> : i \in S}
   \cup {<<"eq", <<i, j>>>> : i \in S, j \in S}
Next == \E o \in Ops : (o[1] = "mref" => mb[o[2][1]].h < MCMaxH[1]) /\ Do(o[1], o[2])
Spec == Init /\ [][Next]_vars
View == <<sl, mb>>
Emit == PrintT("E" \o ToJson(<<ToString(View), ret'.op, ret'.a, ret'.r, Obs', ToString(View')>>))
(* a slice never refers to bytes outside its content *)
InBounds == \A i \in S : sl[i].off >= 0 /\ sl[i].len >= 0 /\ sl[i].off + sl[i].len <= Size
(* whatever a slice is managed by is alive *)
Alive == \A i \in S : sl[i].k = 3 => mb[sl[i].m].st = 1
RefsPositive == \A m \in M : mb[m].st = 1 => Refs(sl, mb, m) > 0
(* freed exactly when the last reference goes *)
FreedLast == [][\A m \in M : (mb[m].st = 1 /\ mb'[m].st = 0) => (ret'.op = "reset" \/ Refs(sl, mb, m) = 1)]_vars
(* re-slicing only narrows; other operations leave other slices alone *)
Others == [][\A i \in S : (sl[i].k # 0 /\ sl'[i].k # 0 /\ ret'.op # "reset") =>
               (Window(sl'[i]) # Window(sl[i]) => (ret'.op \in {"slice", "sliceo", "slicef", "sliceof", "adv", "advf"} /\ ret'.a[1] = i))]_vars
====
