---- MODULE Files ----
(* Files and directories.  fs is the file system below the scratch directory,
   obj the file objects: each denotes a path, and remembers what it found when it
   first looked.  Paths are given as sequences of names; a spelling says how the
   driver writes them down (relative or absolute, with redundant slashes or dots,
   and 4: with a trailing slash, which only a directory can have). *)
EXTENDS FsTree
CONSTANTS NOBJ, PATHS,       \* PATHS: every path that can occur, in the order of the observation
          MCTrees, MCPaths, MCModes, MCOps, MCLevel
VARIABLES fs, obj, mask, ret
vars == <<fs, obj, mask, ret>>
NoObj == [live |-> 0, p |-> <<>>, sp |-> 0, seen |-> <<>>]
Init == fs = Root /\ obj = [i \in 1..NOBJ |-> NoObj] /\ mask = 0 /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == fs' = Root /\ obj' = [i \in 1..NOBJ |-> NoObj] /\ mask' = 0 /\ ret' = [op |-> "reset", a |-> <<>>, r |-> <<>>]
Say(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
RECURSIVE BitAndNot(_, _)
BitAndNot(m, k) == IF m = 0 THEN 0 ELSE 2 * BitAndNot(m \div 2, k \div 2) + (IF m % 2 = 1 /\ k % 2 = 0 THEN 1 ELSE 0)
(* a path with a trailing slash that names a link: not specified *)
Murky(o) == o.sp = 4 /\ LET w == LAt(fs, o.p) IN w[1] = "at" /\ fs[w[2]].t = "link"
(* what the object's path denotes *)
Sees(o) == LET t == TypeAt(fs, o.p) IN IF o.sp = 4 /\ t \notin {"dir", "error"} THEN "missing" ELSE t
Permissive == {2, 3}
Recursive == {1, 3}
(* the permissions of a directory's owner *)
CanRead(f, p) == p = <<>> \/ (f[p].m \div 256) % 2 = 1
CanWrite(f, p) == p = <<>> \/ (f[p].m \div 128) % 2 = 1
Looked(s) == [obj EXCEPT ![s].seen = <<>>]
Fail(s, op, a) == UNCHANGED <<fs, mask>> /\ obj' = Looked(s) /\ Say(op, a, -1)
(* the missing directories on the way to p, outermost first; fails if something else is in the way *)
RECURSIVE MissingDirs(_, _)
MissingDirs(f, p) ==
    LET w == At(f, p) IN
    IF w[1] = "at" THEN (IF f[w[2]].t = "dir" THEN <<"ok", <<>>>> ELSE <<"bad", <<>>>>)
    ELSE IF w[1] = "missing"
         THEN (* a dangling link is in the way itself *)
              IF LAt(f, p)[1] = "at" THEN <<"bad", <<>>>> ELSE <<"ok", <<w[2]>>>>
    ELSE IF w[1] = "loop" \/ p = <<>> THEN <<"bad", <<>>>>
    ELSE LET up == MissingDirs(f, Front(p)) IN
         IF up[1] = "bad" THEN up
         ELSE IF up[2] = <<>> THEN <<"bad", <<>>>>        \* (a dangling link or a file further up)
         ELSE <<"ok", Append(up[2], Append(Last(up[2]), Last(p)))>>
RECURSIVE MakeAll(_, _, _)
MakeAll(f, ps, m) == IF ps = <<>> THEN f ELSE MakeAll(With(f, ps[1], Node("dir", m, <<>>)), Tail(ps), m)
Mkdir(s, mode, flags, refused, op, a) ==
    LET o == obj[s] t == Sees(o) todo == MissingDirs(fs, o.p) m == BitAndNot(mode, mask) IN
    IF Murky(o) THEN FALSE
    ELSE IF t = "dir"
    THEN UNCHANGED <<fs, mask>> /\ obj' = Looked(s) /\ Say(op, a, IF flags \in Permissive THEN 0 ELSE -1)
    ELSE IF t = "missing" /\ todo[1] = "ok" /\ todo[2] # <<>> /\ (Len(todo[2]) = 1 \/ flags \in Recursive)
    THEN \/ ~refused /\ CanWrite(fs, Front(todo[2][1])) /\ fs' = MakeAll(fs, todo[2], m) /\ UNCHANGED mask /\ obj' = Looked(s) /\ Say(op, a, 0)
         (* the system refused to create one of them *)
         \/ ~refused /\ ~CanWrite(fs, Front(todo[2][1])) /\ Fail(s, op, a)
         \/ refused /\ (\E k \in 0..(Len(todo[2]) - 1) : fs' = MakeAll(fs, SubSeq(todo[2], 1, k), m)) /\ UNCHANGED mask /\ obj' = Looked(s) /\ Say(op, a, -1)
    ELSE (* missing parents may have been created before an obstacle is met only if none is met, so nothing changes *)
         Fail(s, op, a)
Remove(s, flags, refused, op, a) ==
    LET o == obj[s] w == LAt(fs, o.p) IN
    IF Murky(o) THEN FALSE
    ELSE IF w[1] # "at" \/ (o.sp = 4 /\ fs[w[2]].t # "dir")
    THEN (IF w[1] = "loop" THEN Fail(s, op, a) ELSE UNCHANGED <<fs, mask>> /\ obj' = Looked(s) /\ Say(op, a, IF flags \in Permissive THEN 0 ELSE -1))
    ELSE LET p == w[2] inside == Below(fs, p) IN
         IF p = <<>> THEN FALSE
         ELSE IF fs[p].t = "dir" /\ inside # {} /\ flags \notin Recursive THEN Fail(s, op, a)
         ELSE LET allowed == (\A q \in inside \cup {p} : CanWrite(fs, Front(q)))
                             /\ (flags \in Recursive => \A q \in inside \cup {p} : fs[q].t = "dir" => CanRead(fs, q)) IN
              \/ ~refused /\ allowed /\ fs' = Without(fs, inside \cup {p}) /\ UNCHANGED mask /\ obj' = Looked(s) /\ Say(op, a, 0)
              \/ /\ refused \/ ~allowed
                 /\ UNCHANGED mask /\ obj' = Looked(s) /\ Say(op, a, -1)
                 /\ \E gone \in SUBSET inside : (\A q \in gone : Below(fs, q) \subseteq gone) /\ fs' = Without(fs, gone)
Do(op, a) ==
    CASE op = "tree" -> fs' = Build(Root, a[1]) /\ UNCHANGED <<obj, mask>> /\ Say(op, a, 0)
      [] op = "put" -> fs' = With(fs, a[1][1], Node(a[1][2], a[1][3], a[1][4])) /\ UNCHANGED <<obj, mask>> /\ Say(op, a, 0)    \* someone else creates ...
      [] op = "drop" -> a[1] \in DOMAIN fs /\ Below(fs, a[1]) = {} /\ fs' = Without(fs, {a[1]}) /\ UNCHANGED <<obj, mask>> /\ Say(op, a, 0)  \* ... and removes things
      [] op = "umask" -> mask' = a[1] /\ UNCHANGED <<fs, obj>> /\ Say(op, a, 0)
      [] op = "new" -> obj[a[1]].live = 0 /\ obj' = [obj EXCEPT ![a[1]] = [NoObj EXCEPT !.live = 1, !.p = a[2], !.sp = a[3]]] /\ UNCHANGED <<fs, mask>> /\ Say(op, a, 0)
      [] op = "free" -> obj[a[1]].live = 1 /\ obj' = [obj EXCEPT ![a[1]] = NoObj] /\ UNCHANGED <<fs, mask>> /\ Say(op, a, 0)
      [] op \in {"exists", "type"} ->
           LET o == obj[a[1]] t == IF o.seen = <<>> THEN Sees(o) ELSE o.seen[1] IN
           /\ o.live = 1 /\ UNCHANGED <<fs, mask>>
           /\ obj' = [obj EXCEPT ![a[1]].seen = IF t = "error" THEN <<>> ELSE <<t>>]
           /\ Say(op, a, IF t = "error" THEN -1 ELSE IF op = "exists" THEN (IF t = "missing" THEN "no" ELSE "yes") ELSE t)
      (* a: object, mode, flags (1 recursive, 2 permissive) [, the call that the system refuses] *)
      [] op = "mkdir" -> obj[a[1]].live = 1 /\ Mkdir(a[1], a[2], a[3], FALSE, op, a)
      [] op = "remove" -> obj[a[1]].live = 1 /\ Remove(a[1], a[2], FALSE, op, a)
      [] op = "mkdirx" -> obj[a[1]].live = 1 /\ Mkdir(a[1], a[2], a[3], a[5] = 1, op, a)
      [] op = "removex" -> obj[a[1]].live = 1 /\ Remove(a[1], a[2], a[4] = 1, op, a)
      (* the directory appears between looking and creating *)
      [] op = "race" ->
           LET o == obj[a[1]] w == At(fs, o.p) IN
           /\ o.live = 1 /\ w[1] = "missing" /\ LAt(fs, o.p) = w /\ o.sp # 4 /\ UNCHANGED mask /\ obj' = Looked(a[1])
           /\ fs' = With(fs, w[2], Node("dir", a[2], <<>>)) /\ Say(op, a, IF a[3] \in Permissive THEN 0 ELSE -1)
      [] OTHER -> FALSE
There == SelectSeq(PATHS, LAMBDA p : p \in DOMAIN fs)
Obs == <<[i \in 1..Len(There) |-> LET n == fs[There[i]] IN <<There[i], n.t, n.m, n.l>>], Cardinality(DOMAIN fs) - 1>>
Ops == {<<"tree", <<t>>>> : t \in MCTrees} \cup {<<"new", <<s, p, sp>>>> : s \in 1..NOBJ, p \in MCPaths, sp \in {0, 4}}
       \cup {<<op, <<s>>>> : op \in {"free", "exists", "type"}, s \in 1..NOBJ}
       \cup {<<"mkdir", <<s, m, f>>>> : s \in 1..NOBJ, m \in MCModes, f \in 0..3} \cup {<<"remove", <<s, f>>>> : s \in 1..NOBJ, f \in 0..3}
Next == \E o \in Ops : o[1] \in MCOps /\ (o[1] = "tree" => fs = Root /\ \A s \in 1..NOBJ : obj[s].live = 0) /\ Do(o[1], o[2])
Spec == Init /\ [][Next]_vars
View == <<fs, obj, mask>>
Key == ToString(<<Obs, obj, mask>>)
Emit == PrintT("E" \o ToJson(<<Key, ret'.op, ret'.a, ret'.r, Obs', Key'>>))
Bound == TLCGet("level") <= MCLevel
Shape == WellFormed(fs)
(* queries change nothing; creating only adds directories; removing only removes, and only below the named file *)
Query == [][ret'.op \in {"new", "free", "exists", "type"} => fs' = fs]_vars
Adds == [][ret'.op \in {"mkdir", "mkdirx"} =>
    /\ \A p \in DOMAIN fs : p \in DOMAIN fs' /\ fs'[p] = fs[p]
    /\ \A p \in DOMAIN fs' \ DOMAIN fs : fs'[p].t = "dir"]_vars
Removes == [][ret'.op \in {"remove", "removex"} =>
    /\ \A p \in DOMAIN fs' : p \in DOMAIN fs /\ fs'[p] = fs[p]
    /\ \A q \in DOMAIN fs \ DOMAIN fs' : LET w == LAt(fs, obj[ret'.a[1]].p) IN w[1] = "at" /\ IsPrefix(w[2], q)]_vars
(* success means that it is there, or gone *)
Success == [][/\ (ret'.op = "mkdir" /\ ret'.r = 0 => TypeAt(fs', obj[ret'.a[1]].p) = "dir")
              /\ (ret'.op = "remove" /\ ret'.r = 0 => LAt(fs', obj[ret'.a[1]].p)[1] # "at" \/ obj[ret'.a[1]].sp = 4)]_vars
====
