---- MODULE Walk ----
(* Listing and walking directories.  A visit of a directory is a sequence of
   calls of the user's callbacks, one for every entry, in any order.  stack holds
   the directories that are being visited: where each is in the tree, how its path
   is written, the path relative to the root, and the entries still to come.
   The result of a callback decides how the visit goes on. *)
EXTENDS FsTree
CONSTANTS MCTrees, MCRoots, MCResults
VARIABLES fs, kind, stack, out, seen, ret
vars == <<fs, kind, stack, out, seen, ret>>
Say(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
Init == fs = Root /\ kind = "" /\ stack = <<>> /\ out = <<>> /\ seen = {} /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == fs' = Root /\ kind' = "" /\ stack' = <<>> /\ out' = <<>> /\ seen' = {} /\ Say("reset", <<>>, <<>>)
CanRead(p) == p = <<>> \/ (fs[p].m \div 256) % 2 = 1
(* name of a root: its text, and the text in front of the entries' names *)
Frame(p, full, rel) == [p |-> p, full |-> full, rel |-> rel, left |-> {Last(q) : q \in Children(fs, p)}]
Top == stack[Len(stack)]
TypeOf(f, name) == TypeAt(fs, Append(f.p, name))
(* what a walk reports of a directory: files and directories, through links *)
Reported(f) == {n \in f.left : TypeOf(f, n) \in {"dir", "file"}}
Done1(name) == [stack EXCEPT ![Len(stack)].left = @ \ {name}]
Failed == out' = <<-1, 2>>
(* a callback's result ends the visit; -1 comes with an error condition of the user's own *)
Ended(rc) == out' = <<rc, IF rc = -1 THEN 1 ELSE 0>>
RECURSIVE Slashes(_)
Slashes(n) == IF n = 0 THEN "" ELSE "/" \o Slashes(n - 1)
Open(p, full, rel, base) ==      \* stack with a new frame, or failure
    IF CanRead(p) THEN stack' = Append(base, Frame(p, full, rel)) /\ UNCHANGED out ELSE stack' = base /\ Failed
Do(op, a) ==
    CASE op = "tree" -> kind = "" /\ fs' = Build(Root, a[1]) /\ UNCHANGED <<kind, stack, out, seen>> /\ Say(op, a, 0)
      (* a: walk or list, where the root is, how it is spelled: a text and a number of slashes after it *)
      [] op = "begin" ->
           /\ kind = "" /\ kind' = a[1] /\ UNCHANGED <<fs, seen>> /\ Say(op, a, 0)
           /\ LET w == At(fs, a[2]) IN
              IF (a[3] = "" /\ a[4] = 0) \/ w[1] # "at" THEN stack' = <<>> /\ Failed
              ELSE IF fs[w[2]].t # "dir" THEN stack' = <<>> /\ Failed
              ELSE Open(w[2], a[3] \o (IF a[1] = "walk" \/ a[4] = 0 THEN "/" ELSE Slashes(a[4])), "", <<>>)
      (* a: full path, relative path, base name, the callback's result *)
      [] op = "enter" ->
           /\ kind = "walk" /\ out = <<>> /\ stack # <<>> /\ a[3] \in Top.left /\ TypeOf(Top, a[3]) = "dir"
           /\ a[1] = Top.full \o a[3] /\ a[2] = Top.rel \o a[3]
           /\ seen' = seen \cup {a[2]} /\ UNCHANGED <<fs, kind>> /\ Say(op, a, 0)
           /\ IF a[4] = 0 THEN Open(At(fs, Append(Top.p, a[3]))[2], a[1] \o "/", a[2] \o "/", Done1(a[3]))
              ELSE IF a[4] = 1 THEN stack' = Done1(a[3]) /\ UNCHANGED out
              ELSE stack' = Done1(a[3]) /\ Ended(a[4])
      [] op = "file" ->
           /\ kind = "walk" /\ out = <<>> /\ stack # <<>> /\ a[3] \in Top.left /\ TypeOf(Top, a[3]) = "file"
           /\ a[1] = Top.full \o a[3] /\ a[2] = Top.rel \o a[3]
           /\ seen' = seen \cup {a[2]} /\ UNCHANGED <<fs, kind>> /\ Say(op, a, 0)
           /\ stack' = Done1(a[3]) /\ IF a[4] = 0 THEN UNCHANGED out ELSE Ended(a[4])
      [] op = "leave" ->
           /\ kind = "walk" /\ out = <<>> /\ Len(stack) > 1 /\ Reported(Top) = {}
           /\ a[1] \o "/" = Top.full /\ a[2] \o "/" = Top.rel /\ a[1] = stack[Len(stack) - 1].full \o a[3]
           /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<fs, kind, seen>> /\ Say(op, a, 0)
           /\ IF a[4] = 0 THEN UNCHANGED out ELSE Ended(a[4])
      (* a: path of the entry, name, the callback's result; r: its type *)
      [] op = "entry" ->
           /\ kind = "list" /\ out = <<>> /\ stack # <<>> /\ a[2] \in Top.left /\ a[1] = Top.full \o a[2]
           /\ LET t == TypeOf(Top, a[2]) IN Say(op, a, t)
           /\ seen' = seen \cup {a[2]} /\ UNCHANGED <<fs, kind>>
           /\ stack' = Done1(a[2]) /\ IF a[3] = 0 THEN UNCHANGED out ELSE Ended(a[3])
      (* the system fails to open a directory (that enter has just announced, or the root), or to read on *)
      [] op = "sysfail" ->
           /\ kind # "" /\ out \in {<<>>, <<-1, 2>>} /\ Failed /\ UNCHANGED <<fs, kind, stack, seen>> /\ Say(op, a, 0)
      (* r: result, error condition (0 none, 1 the callback's own, 2 another), blocks and files still held *)
      [] op = "end" ->
           /\ kind # "" /\ (out # <<>> \/ (Len(stack) = 1 /\ (IF kind = "walk" THEN Reported(Top) = {} ELSE Top.left = {})))
           /\ Say(op, a, (IF out = <<>> THEN <<0, 0>> ELSE out) \o <<0, 0>>)
           /\ kind' = "over" /\ UNCHANGED <<fs, stack, out, seen>>
      [] OTHER -> FALSE
Obs == <<>>
Next == \/ \E t \in MCTrees : fs = Root /\ kind = "" /\ Do("tree", <<t>>)
        \/ \E k \in {"walk", "list"}, p \in MCRoots, n \in {0, 2} : kind = "" /\ Do("begin", <<k, p, "R", n>>)
        \/ kind = "walk" /\ stack # <<>> /\ \E n \in Top.left, rc \in MCResults :
              \/ Do("enter", <<Top.full \o n, Top.rel \o n, n, rc>>)
              \/ rc # 1 /\ Do("file", <<Top.full \o n, Top.rel \o n, n, rc>>)
        \/ kind = "walk" /\ Len(stack) > 1 /\ \E n \in {Last(q) : q \in DOMAIN fs \ {<<>>}}, rc \in MCResults \ {1} :
              LET up == stack[Len(stack) - 1] IN Do("leave", <<up.full \o n, up.rel \o n, n, rc>>)
        \/ kind = "list" /\ stack # <<>> /\ \E n \in Top.left, rc \in MCResults : Do("entry", <<Top.full \o n, n, rc>>)
        \/ kind # "over" /\ Do("end", <<>>)
Spec == Init /\ [][Next]_vars
View == <<fs, kind, stack, out, seen>>
(* everything below the root, written relative to it, that a walk without interference reports *)
RECURSIVE All(_, _)
All(p, rel) == UNION {LET n == Last(q) t == TypeAt(fs, q) IN
                      IF t = "dir" THEN {rel \o n} \cup All(At(fs, q)[2], rel \o n \o "/") ELSE IF t = "file" THEN {rel \o n} ELSE {} : q \in Children(fs, p)}
Complete == (kind = "over" /\ out = <<>> /\ ret.op = "end") =>
    \/ stack[1].rel = "" /\ seen = {Last(q) : q \in Children(fs, stack[1].p)}      \* listed
    \/ seen = All(stack[1].p, "")
    \/ 1 \in MCResults
(* every directory that was entered is left, inside out, before the end *)
Nested == (kind = "over" /\ out = <<>>) => Len(stack) = 1
NeverAgain == [][ret'.op \in {"enter", "file"} => ret'.a[2] \notin seen]_vars
Over == [][out # <<>> => ret'.op = "end"]_vars
====
