---- MODULE Cli ----
(* Command-line dispatch.  A program is a tree of commands (sets and leaves),
   each with or without an option parser; running it with an argument vector
   calls parsers and at most one leaf, writes help or an error, and exits.
   A node is <<kind, name, parser, short, usage, help, children>>:
   kind 0 leaf, 1 set;  parser 0 none; 1 takes nothing; 2 takes flags (words that
   begin with "-"), stopping after "--" and giving up with help and a failure on "-z";
   3 takes "-o" with the word that follows it;  short, usage, help: the texts or "". *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS FLAGS,                    \* the words in play that begin with "-"
          MCTrees, MCWords, MCLen
VARIABLES tree, ret
vars == <<tree, ret>>
Init == tree = <<>> /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == tree' = <<>> /\ ret' = [op |-> "reset", a |-> <<>>, r |-> <<>>]
Kind(t, n) == t[n][1]
Name(t, n) == t[n][2]
Parser(t, n) == t[n][3]
Kids(t, n) == t[n][7]
DropN(s, k) == SubSeq(s, k + 1, Len(s))
Opt(x) == IF x = "" THEN <<>> ELSE <<x>>
(* how many of the words w (the first one being the command's name) a parser takes; -1: it gives up *)
RECURSIVE Flags(_, _), OVals(_, _)
Flags(w, k) == IF k >= Len(w) \/ w[k + 1] \notin FLAGS THEN k
               ELSE IF w[k + 1] = "--" THEN k + 1 ELSE IF w[k + 1] = "-z" THEN -1 ELSE Flags(w, k + 1)
OVals(w, k) == IF k + 1 < Len(w) /\ w[k + 1] = "-o" THEN OVals(w, k + 2) ELSE k
Takes(p, w) == CASE p \in {0, 1} -> 1 [] p = 2 -> Flags(w, 1) [] OTHER -> OVals(w, 1)
(* what the help of a command says: its full name, then its usage and help, or its subcommands in order *)
RECURSIVE Listing(_, _)
Listing(t, ks) == IF ks = <<>> THEN <<>> ELSE <<Name(t, Head(ks))>> \o Opt(t[Head(ks)][4]) \o Listing(t, Tail(ks))
Help(t, n, path) == path \o (IF Kind(t, n) = 0 THEN Opt(t[n][5]) \o Opt(t[n][6]) ELSE Listing(t, Kids(t, n)))
Sub(t, n, w) == LET ms == {k \in 1..Len(Kids(t, n)) : Name(t, Kids(t, n)[k]) = w} IN
    IF ms = {} THEN 0 ELSE Kids(t, n)[CHOOSE k \in ms : \A j \in ms : k <= j]
Out(status, log, says) == <<status, log, says>>
(* a missing command: what there is to choose from; an unknown one: the full name of the set that does not have it *)
Missing(t, n, path, log) == Out("failure", log, Help(t, n, path))
Unknown(path, log) == Out("failure", log, path)
RECURSIVE HelpFor(_, _, _, _, _), Run(_, _, _, _, _)
HelpFor(t, n, w, path, log) ==
    IF Len(w) = 0 \/ Kind(t, n) = 0 THEN Out("success", log, Help(t, n, path))
    ELSE LET s == Sub(t, n, w[1]) IN
         IF s = 0 THEN Unknown(path, log) ELSE HelpFor(t, s, Tail(w), Append(path, Name(t, s)), log)
(* run command n with the words w, w[1] standing for its name *)
Run(t, n, w, path0, log0) ==
    LET path == Append(path0, Name(t, n)) IN
    IF Len(w) >= 2 /\ w[2] \in {"-h", "--help"} THEN Out("success", log0, Help(t, n, path))
    ELSE LET k == Takes(Parser(t, n), w)
             log == IF Parser(t, n) = 0 THEN log0 ELSE Append(log0, <<"options", n, w>>)
             rest == DropN(w, k) IN
         IF k = -1 THEN Out("failure", log, Help(t, n, path))
         ELSE IF Kind(t, n) = 0 THEN Out(IF rest # <<>> /\ rest[1] = "exit3" THEN "3" ELSE "success", Append(log, <<"leaf", n, rest>>), <<>>)
         ELSE IF rest = <<>> THEN Missing(t, n, path, log)
         ELSE IF rest[1] = "help" THEN HelpFor(t, n, Tail(rest), path, log)
         ELSE LET s == Sub(t, n, rest[1]) IN IF s = 0 THEN Unknown(path, log) ELSE Run(t, s, rest, path, log)
Do(op, a) ==
    CASE op = "tree" -> tree' = a[1] /\ ret' = [op |-> op, a |-> a, r |-> <<>>]
      [] op = "main" -> tree # <<>> /\ UNCHANGED tree /\ ret' = [op |-> op, a |-> a, r |-> Run(tree, 1, a[1], <<>>, <<>>)]
      (* a command's help with a message, asked for by the program itself *)
      [] OTHER -> FALSE
Obs == <<>>
Words == UNION {[1..n -> MCWords] : n \in 0..MCLen}
Next == \/ tree = <<>> /\ \E t \in MCTrees : Do("tree", <<t>>)
        \/ \E w \in Words : Do("main", <<<<"prog">> \o w>>)
Spec == Init /\ [][Next]_vars
View == <<tree>>
Emit == PrintT("E" \o ToJson(<<ToString(View), ret'.op, ret'.a, ret'.r, Obs', ToString(View')>>))
(* at most one leaf, last; help and errors never run one; whatever a command is given is what its ancestors left *)
Suffix(s, w) == Len(s) <= Len(w) /\ DropN(w, Len(w) - Len(s)) = s
OneLeaf == [][ret'.op = "main" =>
    LET log == ret'.r[2] w == ret'.a[1] IN
    /\ \A i \in 1..Len(log) : log[i][1] = "leaf" => i = Len(log) /\ Kind(tree, log[i][2]) = 0
    /\ \A i \in 1..Len(log) : Suffix(log[i][3], w)
    /\ \A i \in 2..Len(log) : Len(log[i][3]) <= Len(log[i - 1][3])
    /\ (ret'.r[3] # <<>> => \A i \in 1..Len(log) : log[i][1] # "leaf")
    /\ (ret'.r[1] = "success" => ret'.r[3] # <<>> \/ (log # <<>> /\ log[Len(log)][1] = "leaf"))]_vars
HelpAfterName == [][ret'.op = "main" /\ Len(ret'.a[1]) >= 2 /\ ret'.a[1][2] \in {"-h", "--help"} => ret'.r = <<"success", <<>>, Help(tree, 1, <<Name(tree, 1)>>)>>]_vars
====
