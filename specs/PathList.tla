---- MODULE PathList ----
(* Lists of paths, and searching them.  A path is a sequence of character codes;
   those that start with "/@" are below the scratch directory, relative ones start
   there, and no other absolute path denotes anything.  lst holds the lists. *)
EXTENDS FsTree, SequencesExt
CONSTANTS NOBJ, MCTrees, MCStrings, MCRels, MCMax
VARIABLES fs, lst, ret
vars == <<fs, lst, ret>>
Slash == 47
Colon == 58
Say(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
Init == fs = Root /\ lst = [i \in 1..NOBJ |-> <<>>] /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == fs' = Root /\ lst' = [i \in 1..NOBJ |-> <<>>] /\ Say("reset", <<>>, <<>>)
(* splitting at a separator: there is always at least one (possibly empty) part *)
RECURSIVE Split(_, _)
Split(s, c) == IF ~(\E i \in 1..Len(s) : s[i] = c) THEN <<s>>
               ELSE LET i == CHOOSE j \in 1..Len(s) : s[j] = c /\ \A k \in 1..(j - 1) : s[k] # c
                    IN <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), c)
RECURSIVE Render(_)
Render(l) == IF l = <<>> THEN <<>> ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o <<Colon>> \o Render(Tail(l))
IsAbs(p) == p # <<>> /\ p[1] = Slash
Join(p, q) == IF q = <<>> THEN p
              ELSE IF IsAbs(q) \/ p = <<>> THEN q
              ELSE IF p[Len(p)] = Slash THEN p \o q
              ELSE p \o <<Slash>> \o q
Comps(p) == SelectSeq(Split(p, Slash), LAMBDA c : c # <<>> /\ c # <<46>>)
(* what is there: its type, "missing" or "error" *)
What(p) ==
    LET scr == Len(p) >= 2 /\ p[1] = Slash /\ p[2] = 64
        q == IF scr THEN SubSeq(p, 3, Len(p)) ELSE p
        t == TypeAt(fs, Comps(q)) IN
    IF p = <<>> \/ (IsAbs(p) /\ ~scr) THEN "missing"
    ELSE IF q # <<>> /\ Split(q, Slash)[Len(Split(q, Slash))] \in {<<>>, <<46>>} /\ t \notin {"dir", "error"} THEN "missing" ELSE t
Hits(l, rel) == [i \in 1..Len(l) |-> <<Join(l[i], rel), What(Join(l[i], rel))>>]
Live(i) == lst[i] # <<>>
First(l, rel) == LET h == SelectSeq(Hits(l, rel), LAMBDA x : x[2] # "missing") IN
                 IF h = <<>> THEN <<"none">> ELSE IF h[1][2] = "error" THEN <<"error">> ELSE <<"found", h[1]>>
All(l, rel) == LET h == SelectSeq(Hits(l, rel), LAMBDA x : x[2] # "missing") IN
               IF \E i \in 1..Len(h) : h[i][2] = "error" THEN <<"error">> ELSE <<"files", h>>
Do(op, a) ==
    CASE op = "tree" -> fs' = Build(Root, a[1]) /\ UNCHANGED lst /\ Say(op, a, 0)
      [] op = "empty" -> ~Live(a[1]) /\ lst' = [lst EXCEPT ![a[1]] = << <<>> >>] /\ UNCHANGED fs /\ Say(op, a, 0)
      [] op = "new" -> ~Live(a[1]) /\ lst' = [lst EXCEPT ![a[1]] = <<Split(a[2], Colon)>>] /\ UNCHANGED fs /\ Say(op, a, 0)
      [] op = "free" -> Live(a[1]) /\ lst' = [lst EXCEPT ![a[1]] = <<>>] /\ UNCHANGED fs /\ Say(op, a, 0)
      [] op = "add" -> Live(a[1]) /\ lst' = [lst EXCEPT ![a[1]] = <<Append(@[1], a[2])>>] /\ UNCHANGED fs /\ Say(op, a, 0)
      [] op = "find" -> Live(a[1]) /\ UNCHANGED <<fs, lst>> /\ Say(op, a, First(lst[a[1]][1], a[2]))
      [] op = "findall" -> Live(a[1]) /\ UNCHANGED <<fs, lst>> /\ Say(op, a, All(lst[a[1]][1], a[2]))
      (* a list of files made from a list of paths, and extended by others *)
      [] op = "files" -> Live(a[1]) /\ UNCHANGED <<fs, lst>> /\ Say(op, a, lst[a[1]][1] \o a[2])
      [] OTHER -> FALSE
(* each list: its paths, and how it is rendered *)
Obs == [i \in 1..NOBJ |-> IF Live(i) THEN <<lst[i][1], Render(lst[i][1])>> ELSE <<>>]
Slots == 1..NOBJ
Next == \/ \E t \in MCTrees : fs = Root /\ (\A i \in Slots : ~Live(i)) /\ Do("tree", <<t>>)
        \/ \E i \in Slots : Do("empty", <<i>>) \/ Do("free", <<i>>)
        \/ \E i \in Slots, s \in MCStrings : Do("new", <<i, s>>) \/ (~(\E k \in 1..Len(s) : s[k] = Colon) /\ Live(i) /\ Len(lst[i][1]) < MCMax /\ Do("add", <<i, s>>))
        \/ \E i \in Slots, s \in MCRels : Do("find", <<i, s>>) \/ Do("findall", <<i, s>>) \/ Do("files", <<i, <<s>>>>)
Spec == Init /\ [][Next]_vars
View == <<fs, lst>>
Key == ToString(<<Obs, IF DOMAIN fs = {<<>>} THEN 0 ELSE CHOOSE t \in MCTrees : Build(Root, t) = fs>>)
Emit == PrintT("E" \o ToJson(<<Key, ret'.op, ret'.a, ret'.r, Obs', Key'>>))
SplitsBack == \A s \in MCStrings : Render(Split(s, Colon)) = s /\ \A i \in 1..Len(Split(s, Colon)) : Split(Split(s, Colon)[i], Colon) = <<Split(s, Colon)[i]>>
(* the first match is the first of all matches; there is an error exactly if there is none *)
Agree == [][\A i \in Slots, rel \in MCRels : Live(i) =>
    LET f == First(lst[i][1], rel) l == All(lst[i][1], rel) IN
    /\ (l[1] = "files" => f = (IF l[2] = <<>> THEN <<"none">> ELSE <<"found", l[2][1]>>))
    /\ (f = <<"error">> => l = <<"error">>)]_vars
====
