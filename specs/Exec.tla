---- MODULE Exec ----
(* Execution specifications: a program, its parameters in order, optionally an
   environment and a working directory.  Running one either replaces the process
   by the program, which then sees exactly those (and otherwise the caller's
   environment and directory), or - the directory or the program being unusable
   - returns an error and leaves the specification as it was.
   Paths beginning with @ are below the scratch directory the caller starts in. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NAMES,            \* the names of all environment variables in play, sorted
          PROGS, DIRS,      \* the programs that can be executed; directory name -> where it is
          MCProgs, MCParams, MCDirs, MCEnvs, MCLen, MCOps
VARIABLES spec, penv, ret
vars == <<spec, penv, ret>>
Empty == [n \in {} |-> ""]
None == [live |-> 0, prog |-> "", params |-> <<>>, hasenv |-> 0, env |-> Empty, cwd |-> <<>>]
Init == spec = None /\ penv = Empty /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == spec' = None /\ penv' = Empty /\ ret' = [op |-> "reset", a |-> <<>>, r |-> <<>>]
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE " " \o Head(s) \o Join(Tail(s))
Drop1(s) == IF s = <<>> THEN <<>> ELSE Tail(s)
Desc(s) == s.prog \o Join(Drop1(s.params))
MapOf(l) == [n \in {l[i][1] : i \in 1..Len(l)} |-> LET k == CHOOSE k \in 1..Len(l) : l[k][1] = n /\ \A j \in (k + 1)..Len(l) : l[j][1] # n IN l[k][2]]
Pairs(e) == LET ns == SelectSeq(NAMES, LAMBDA n : n \in DOMAIN e) IN [i \in 1..Len(ns) |-> <<ns[i], e[ns[i]]>>]
Is(s, op, a, r) == spec' = s /\ ret' = [op |-> op, a |-> a, r |-> r]
Works(s) == s.prog \in PROGS /\ (s.cwd = <<>> \/ s.cwd[1] \in DOMAIN DIRS)
Outcome(s) ==
    IF Works(s) THEN <<0, s.params, Pairs(IF s.hasenv = 1 THEN s.env ELSE penv), IF s.cwd = <<>> THEN "@" ELSE DIRS[s.cwd[1]]>>
    ELSE <<-1, <<>>, <<>>, "">>
New(p, ps) == [None EXCEPT !.live = 1, !.prog = p, !.params = ps]
Do(op, a) ==
    CASE op = "new" -> spec.live = 0 /\ UNCHANGED penv /\ Is(New(a[1], <<>>), op, a, <<>>)
      [] op = "newp" -> spec.live = 0 /\ UNCHANGED penv /\ Is(New(a[1], <<a[1]>> \o a[2]), op, a, <<>>)
      [] op = "newa" -> spec.live = 0 /\ UNCHANGED penv /\ Is(New(a[1], a[2]), op, a, <<>>)
      [] op = "add" -> spec.live = 1 /\ UNCHANGED penv /\ Is([spec EXCEPT !.params = Append(spec.params, a[1])], op, a, <<>>)
      [] op = "env" -> spec.live = 1 /\ UNCHANGED penv /\ Is([spec EXCEPT !.hasenv = 1, !.env = MapOf(a[1])], op, a, <<>>)
      [] op = "cwd" -> spec.live = 1 /\ UNCHANGED penv /\ Is([spec EXCEPT !.cwd = <<a[1]>>], op, a, <<>>)
      [] op = "run" -> spec.live = 1 /\ spec.params # <<>> /\ UNCHANGED penv /\ Is(spec, op, a, Outcome(spec))
      (* as a subprocess, which takes the specification over *)
      [] op = "subrun" -> spec.live = 1 /\ spec.params # <<>> /\ UNCHANGED penv /\ Is(None, op, a, Outcome(spec))
      (* a run that fails, after which the directory is corrected and a parameter added *)
      [] op = "runfix" ->
           LET s == [spec EXCEPT !.params = Append(spec.params, a[1]), !.cwd = <<a[2]>>] IN
           spec.live = 1 /\ spec.params # <<>> /\ ~Works(spec) /\ UNCHANGED penv /\ Is(spec, op, a, Outcome(s))
      [] op = "free" -> spec.live = 1 /\ UNCHANGED penv /\ Is(None, op, a, <<>>)
      (* the caller's own environment *)
      [] op = "penv" -> penv' = MapOf(a[1]) /\ Is(spec, op, a, <<>>)
      [] OTHER -> FALSE
Obs == <<spec.live, spec.prog, spec.params, Desc(spec), IF spec.hasenv = 1 THEN Pairs(spec.env) ELSE <<<<"none", "none">>>>, spec.cwd>>
Params == UNION {[1..n -> MCParams] : n \in 0..MCLen}
Ops == {<<"new", <<p>>>> : p \in MCProgs} \cup {<<op, <<p, s>>>> : op \in {"newp", "newa"}, p \in MCProgs, s \in Params}
       \cup {<<"add", <<p>>>> : p \in MCParams} \cup {<<op, <<e>>>> : op \in {"env", "penv"}, e \in MCEnvs}
       \cup {<<"cwd", <<d>>>> : d \in MCDirs} \cup {<<op, <<>>>> : op \in {"run", "subrun", "free"}}
       \cup {<<"runfix", <<p, d>>>> : p \in MCParams, d \in MCDirs}
Next == \E o \in Ops : o[1] \in MCOps /\ Do(o[1], o[2]) /\ Len(spec'.params) <= MCLen
Spec == Init /\ [][Next]_vars
View == <<spec, penv>>
Emit == PrintT("E" \o ToJson(<<ToString(View), ret'.op, ret'.a, ret'.r, Obs', ToString(View')>>))
(* the program sees an environment that is either the attached one or the caller's, never a mixture; parameters in order *)
Exact == [][ret'.op = "run" /\ ret'.r[1] = 0 =>
    /\ ret'.r[2] = spec.params
    /\ ret'.r[3] = Pairs(IF spec.hasenv = 1 THEN spec.env ELSE penv)
    /\ (spec.cwd = <<>> => ret'.r[4] = "@")]_vars
Unchanged == [][ret'.op \in {"run", "runfix"} => spec' = spec]_vars
====
