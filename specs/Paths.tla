---- MODULE Paths ----
(* Path objects.  A path is a sequence of character codes; obj holds the path
   objects, cwd the current directory (which can be unavailable: <<>>). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS NOBJ, MCAlpha, MCLen, MCMax, MCCwds, MCOps
VARIABLES obj, cwd, ret
vars == <<obj, cwd, ret>>
Slash == 47
Say(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
(* an object: <<>> if there is none, <<path>> otherwise *)
Init == obj = [i \in 1..NOBJ |-> <<>>] /\ cwd = <<Slash>> /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == obj' = [i \in 1..NOBJ |-> <<>>] /\ cwd' = <<Slash>> /\ Say("reset", <<>>, <<>>)
IsAbs(p) == p # <<>> /\ p[1] = Slash
Join(p, q) == IF q = <<>> THEN p
              ELSE IF IsAbs(q) \/ p = <<>> THEN q
              ELSE IF p[Len(p)] = Slash THEN p \o q
              ELSE p \o <<Slash>> \o q
Slashes(p) == {i \in 1..Len(p) : p[i] = Slash}
LastSlash(p) == CHOOSE i \in Slashes(p) : \A j \in Slashes(p) : j <= i
Base(p) == IF Slashes(p) = {} THEN p ELSE SubSeq(p, LastSlash(p) + 1, Len(p))
Dir(p) == IF Slashes(p) = {} THEN <<>> ELSE IF LastSlash(p) = 1 THEN <<Slash>> ELSE SubSeq(p, 1, LastSlash(p) - 1)
Abs(p) == IF IsAbs(p) THEN p ELSE IF p = <<>> THEN Join(cwd, <<Slash>>) ELSE Join(cwd, p)
Live(i) == i \in 1..NOBJ /\ obj[i] # <<>>
Free(i) == i \in 1..NOBJ /\ obj[i] = <<>>
Make(i, p) == Free(i) /\ obj' = [obj EXCEPT ![i] = <<p>>]
Set(i, p) == Live(i) /\ obj' = [obj EXCEPT ![i] = <<p>>]
Fail == UNCHANGED obj
(* making the empty path absolute gives the current directory, with a final slash *)
AbsOf(p) == IF IsAbs(p) THEN p ELSE (IF cwd[Len(cwd)] = Slash THEN cwd ELSE cwd \o <<Slash>>) \o p
Fn(op, p, q) == CASE op \in {"append", "appendp", "join", "joinp"} -> Join(p, q)
                  [] op \in {"setbase", "base"} -> Base(p) [] op \in {"setdir", "dir"} -> Dir(p)
                  [] op \in {"setabs", "abs"} -> AbsOf(p)
Do(op, a) ==
    CASE op = "new" -> Make(a[1], a[2]) /\ UNCHANGED cwd /\ Say(op, a, 0)
      [] op = "newnull" -> Make(a[1], <<>>) /\ UNCHANGED cwd /\ Say(op, a, 0)
      [] op = "clone" -> Live(a[2]) /\ Make(a[1], obj[a[2]][1]) /\ UNCHANGED cwd /\ Say(op, a, 0)
      [] op = "free" -> Live(a[1]) /\ obj' = [obj EXCEPT ![a[1]] = <<>>] /\ UNCHANGED cwd /\ Say(op, a, 0)
      [] op = "set" -> Set(a[1], a[2]) /\ UNCHANGED cwd /\ Say(op, a, 0)
      [] op = "setnull" -> Set(a[1], <<>>) /\ UNCHANGED cwd /\ Say(op, a, 0)
      (* in place: the object, and another string or object *)
      [] op = "append" -> Live(a[1]) /\ Set(a[1], Join(obj[a[1]][1], a[2])) /\ UNCHANGED cwd /\ Say(op, a, 0)
      [] op = "appendnull" -> Live(a[1]) /\ UNCHANGED <<obj, cwd>> /\ Say(op, a, 0)
      [] op = "appendp" -> Live(a[1]) /\ Live(a[2]) /\ a[1] # a[2] /\ Set(a[1], Join(obj[a[1]][1], obj[a[2]][1])) /\ UNCHANGED cwd /\ Say(op, a, 0)
      [] op \in {"setbase", "setdir"} -> Live(a[1]) /\ Set(a[1], Fn(op, obj[a[1]][1], <<>>)) /\ UNCHANGED cwd /\ Say(op, a, 0)
      (* copying: the new object, the operands *)
      [] op = "join" -> Live(a[2]) /\ Make(a[1], Join(obj[a[2]][1], a[3])) /\ UNCHANGED cwd /\ Say(op, a, 0)
      [] op = "joinp" -> Live(a[2]) /\ Live(a[3]) /\ Make(a[1], Join(obj[a[2]][1], obj[a[3]][1])) /\ UNCHANGED cwd /\ Say(op, a, 0)
      [] op \in {"base", "dir"} -> Live(a[2]) /\ Make(a[1], Fn(op, obj[a[2]][1], <<>>)) /\ UNCHANGED cwd /\ Say(op, a, 0)
      (* the current directory: a new object, or an existing one *)
      [] op = "cwd" -> IF cwd = <<>> THEN Free(a[1]) /\ Fail /\ UNCHANGED cwd /\ Say(op, a, -1)
                       ELSE Make(a[1], cwd) /\ UNCHANGED cwd /\ Say(op, a, 0)
      [] op = "setcwd" -> Live(a[1]) /\ cwd # <<>> /\ Set(a[1], cwd) /\ UNCHANGED cwd /\ Say(op, a, 0)
      [] op = "setabs" -> /\ Live(a[1]) /\ UNCHANGED cwd
                          /\ IF cwd = <<>> /\ ~IsAbs(obj[a[1]][1]) THEN Fail /\ Say(op, a, -1)
                             ELSE Set(a[1], AbsOf(obj[a[1]][1])) /\ Say(op, a, 0)
      [] op = "abs" -> /\ Live(a[2]) /\ Free(a[1]) /\ UNCHANGED cwd
                       /\ IF cwd = <<>> /\ ~IsAbs(obj[a[2]][1]) THEN Fail /\ Say(op, a, -1)
                          ELSE Make(a[1], AbsOf(obj[a[2]][1])) /\ Say(op, a, 0)
      (* the process goes to another directory (a: which one, and its name) *)
      [] op = "chdir" -> cwd' = a[2] /\ UNCHANGED obj /\ Say(op, a, 0)
      [] OTHER -> FALSE
Obs == obj
Strings == UNION {[1..k -> MCAlpha] : k \in 0..MCLen}
Slots == 1..NOBJ
Ops == {<<"new", <<i, s>>>> : i \in Slots, s \in Strings} \cup {<<"set", <<i, s>>>> : i \in Slots, s \in Strings}
       \cup {<<op, <<i>>>> : op \in {"newnull", "setnull", "free", "appendnull", "setbase", "setdir", "cwd", "setcwd", "setabs"}, i \in Slots}
       \cup {<<op, <<i, j>>>> : op \in {"clone", "appendp", "base", "dir", "abs"}, i \in Slots, j \in Slots}
       \cup {<<"append", <<i, s>>>> : i \in Slots, s \in Strings} \cup {<<"join", <<i, j, s>>>> : i \in Slots, j \in Slots, s \in Strings}
       \cup {<<"joinp", <<i, j, k>>>> : i \in Slots, j \in Slots, k \in Slots} \cup {<<"chdir", c>> : c \in MCCwds}
Next == \E o \in Ops : o[1] \in MCOps /\ Do(o[1], o[2]) /\ \A i \in Slots : obj'[i] = <<>> \/ Len(obj'[i][1]) <= MCMax
Spec == Init /\ [][Next]_vars
View == <<obj, cwd>>
Emit == PrintT("E" \o ToJson(<<ToString(View), ret'.op, ret'.a, ret'.r, Obs', ToString(View')>>))
(* -- what the operations promise -- *)
Paths == {obj[i][1] : i \in {j \in Slots : Live(j)}}
Laws == \A p \in Paths :
    /\ Slashes(Base(p)) = {}                                        \* a base name is one component
    /\ IsAbs(Dir(p)) <=> IsAbs(p)
    /\ Slashes(p) # {} => p = Dir(p) \o (IF LastSlash(p) = 1 THEN <<>> ELSE <<Slash>>) \o Base(p)   \* nothing else is lost
    /\ \A q \in Paths : /\ Base(Join(p, q)) = (IF q = <<>> THEN Base(p) ELSE Base(q))
                        /\ Join(p, Join(q, p)) = Join(Join(p, q), p)
                        /\ IsAbs(Join(p, q)) <=> IsAbs(p) \/ IsAbs(q)
(* only the object that is named changes; the copying operations leave their operands alone *)
Frame == [][\A i \in Slots : obj'[i] # obj[i] => ret'.op # "chdir" /\ ret'.a[1] = i]_vars
====
