---- MODULE Xdg ----
(* The standard paths as functions of the environment.  env gives the values of
   the variables: <<>> if unset, <<characters>> otherwise. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MCValues
VARIABLES env, ret
vars == <<env, ret>>
Vars == <<"HOME", "XDG_CONFIG_HOME", "XDG_CONFIG_DIRS", "XDG_DATA_HOME", "XDG_DATA_DIRS", "XDG_CACHE_HOME", "XDG_RUNTIME_DIR">>
Idx(v) == CHOOSE i \in 1..7 : Vars[i] = v
Say(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
Init == env = [i \in 1..7 |-> <<>>] /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == env' = [i \in 1..7 |-> <<>>] /\ Say("reset", <<>>, <<>>)
Slash == 47
Colon == 58
Is(v) == env[Idx(v)] # <<>> /\ env[Idx(v)][1] # <<>>       \* set, and not empty
Val(v) == env[Idx(v)][1]
RECURSIVE Split(_)
Split(s) == IF ~(\E i \in 1..Len(s) : s[i] = Colon) THEN <<s>>
            ELSE LET i == CHOOSE j \in 1..Len(s) : s[j] = Colon /\ \A k \in 1..(j - 1) : s[k] # Colon
                 IN <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)))
Under(p, q) == p \o (IF p[Len(p)] = Slash THEN <<>> ELSE <<Slash>>) \o q
dotconfig == <<46, 99, 111, 110, 102, 105, 103>>                                            \* .config
dotlocalshare == <<46, 108, 111, 99, 97, 108, 47, 115, 104, 97, 114, 101>>                  \* .local/share
dotcache == <<46, 99, 97, 99, 104, 101>>                                                    \* .cache
etcxdg == <<47, 101, 116, 99, 47, 120, 100, 103>>                                           \* /etc/xdg
usrlocalshare == <<47, 117, 115, 114, 47, 108, 111, 99, 97, 108, 47, 115, 104, 97, 114, 101>>
usrshare == <<47, 117, 115, 114, 47, 115, 104, 97, 114, 101>>
(* <<>>: an error *)
User(v, default) == IF Is(v) THEN <<Val(v)>> ELSE IF Is("HOME") THEN <<Under(Val("HOME"), default)>> ELSE <<>>
Listed(user, v, default) == IF user = <<>> THEN <<>> ELSE user \o (IF Is(v) THEN Split(Val(v)) ELSE default)
Answer(op) ==
    CASE op = "home" -> IF Is("HOME") THEN <<Val("HOME")>> ELSE <<>>
      [] op = "config" -> Listed(User("XDG_CONFIG_HOME", dotconfig), "XDG_CONFIG_DIRS", <<etcxdg>>)
      [] op = "data" -> Listed(User("XDG_DATA_HOME", dotlocalshare), "XDG_DATA_DIRS", <<usrlocalshare, usrshare>>)
      [] op = "cache" -> User("XDG_CACHE_HOME", dotcache)
      [] op = "runtime" -> IF Is("XDG_RUNTIME_DIR") THEN <<Val("XDG_RUNTIME_DIR")>> ELSE <<>>
Queries == {"home", "config", "data", "cache", "runtime"}
Do(op, a) ==
    CASE op = "env" -> env' = a[1] /\ Say(op, a, <<>>)
      [] op = "set" -> env' = [env EXCEPT ![a[1]] = a[2]] /\ Say(op, a, <<>>)
      [] op \in Queries -> UNCHANGED env /\ Say(op, a, Answer(op))
      [] OTHER -> FALSE
Obs == env
Next == (\E i \in 1..7, v \in MCValues : Do("set", <<i, v>>)) \/ \E op \in Queries : Do(op, <<>>)
Spec == Init /\ [][Next]_vars
View == env
Emit == PrintT("E" \o ToJson(<<ToString(View), ret'.op, ret'.a, ret'.r, Obs', ToString(View')>>))
(* a variable matters only to the queries it is for; the user's entry is first; nothing but the runtime directory needs more than HOME *)
Precedence ==
    /\ Is("HOME") => \A op \in Queries \ {"runtime"} : Answer(op) # <<>>
    /\ ~Is("HOME") => Answer("home") = <<>> /\ (Answer("cache") # <<>> <=> Is("XDG_CACHE_HOME"))
    /\ Is("XDG_CONFIG_HOME") => Answer("config")[1] = Val("XDG_CONFIG_HOME")
    /\ Is("XDG_DATA_HOME") => Answer("data")[1] = Val("XDG_DATA_HOME")
    /\ \A op \in {"config", "data"} : Answer(op) # <<>> => Len(Answer(op)) >= 2
Uses == [home |-> {1}, config |-> {1, 2, 3}, data |-> {1, 4, 5}, cache |-> {1, 6}, runtime |-> {7}]
Independent == [][ret'.op = "set" => \A op \in Queries : ret'.a[1] \notin Uses[op] => Answer(op) = Answer(op)']_vars
====
