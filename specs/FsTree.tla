---- MODULE FsTree ----
(* File system trees: a map from paths (sequences of names, below the scratch
   directory, which is <<>>) to nodes.  A node has a type, permissions and, if
   it is a symbolic link, a target (a path from the scratch directory). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Node(t, m, l) == [t |-> t, m |-> m, l |-> l]
Root == [p \in {<<>>} |-> Node("dir", 0, <<>>)]
Front(p) == SubSeq(p, 1, Len(p) - 1)
Last(p) == p[Len(p)]
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Below(fs, p) == {q \in DOMAIN fs : IsPrefix(p, q) /\ q # p}
Children(fs, p) == {q \in DOMAIN fs : Len(q) = Len(p) + 1 /\ IsPrefix(p, q)}
(* Resolution of the components rest from the (existing) directory cur, using at
   most n more links; the last component is followed if it is a link and last
   is TRUE.  <<"at", p>>: p exists; <<"missing", p>>: it does not, but the
   directory it would be in does; <<"nowhere">>: not even that; <<"loop">>: the
   system cannot tell (too many links, or a directory that may not be searched). *)
RECURSIVE Walk(_, _, _, _, _)
Walk(fs, cur, rest, n, last) ==
    IF rest = <<>> THEN <<"at", cur>>
    ELSE IF fs[cur].t # "dir" THEN <<"nowhere">>
    ELSE IF cur # <<>> /\ (fs[cur].m \div 64) % 2 = 0 THEN <<"loop">>
    ELSE LET q == Append(cur, Head(rest)) IN
         IF q \notin DOMAIN fs THEN (IF Len(rest) = 1 THEN <<"missing", q>> ELSE <<"nowhere">>)
         ELSE IF fs[q].t = "link" /\ (Len(rest) > 1 \/ last)
              THEN IF n = 0 THEN <<"loop">> ELSE Walk(fs, <<>>, fs[q].l \o Tail(rest), n - 1, last)
              ELSE Walk(fs, q, Tail(rest), n, last)
At(fs, p) == Walk(fs, <<>>, p, 12, TRUE)           \* as stat does
LAt(fs, p) == Walk(fs, <<>>, p, 12, FALSE)         \* as lstat does
(* the type of what a path denotes, through links *)
TypeAt(fs, p) ==
    LET w == At(fs, p) IN
    CASE w[1] = "at" -> fs[w[2]].t
      [] w[1] = "loop" -> "error"
      [] OTHER -> "missing"
With(fs, p, node) == [q \in DOMAIN fs \cup {p} |-> IF q = p THEN node ELSE fs[q]]
Without(fs, ps) == [q \in DOMAIN fs \ ps |-> fs[q]]
(* a list of <<path, type, mode, target>> *)
RECURSIVE Build(_, _)
Build(fs, l) == IF l = <<>> THEN fs ELSE Build(With(fs, l[1][1], Node(l[1][2], l[1][3], l[1][4])), Tail(l))
WellFormed(fs) == <<>> \in DOMAIN fs /\ \A p \in DOMAIN fs : p # <<>> => Front(p) \in DOMAIN fs /\ fs[Front(p)].t = "dir"
====
