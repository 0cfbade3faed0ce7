---- MODULE Env ----
(* Collections of environment variables.  World 0 is the environment of the
   process itself; worlds 1..NS are collections, which exist between new/clone
   and free.  A world maps names to values.  After every operation the value of
   every name in every world is observed, and the number of variables in the
   process environment. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NS, NAMES, MCVals, MCOps       \* NAMES: the sequence of names that is observed
VARIABLES env, live, ret
vars == <<env, live, ret>>
Worlds == 0..NS
Empty == [n \in {} |-> ""]
Init == env = [w \in Worlds |-> Empty] /\ live = {0} /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == env' = [w \in Worlds |-> Empty] /\ live' = {0} /\ ret' = [op |-> "reset", a |-> <<>>, r |-> <<>>]
With(e, n, v) == [m \in DOMAIN e \cup {n} |-> IF m = n THEN v ELSE e[m]]
Without(e, n) == [m \in DOMAIN e \ {n} |-> e[m]]
Val(e, n) == IF n \in DOMAIN e THEN <<e[n]>> ELSE <<>>
Put(w, e, op, a, r) == env' = [env EXCEPT ![w] = e] /\ UNCHANGED live /\ ret' = [op |-> op, a |-> a, r |-> r]
Do(op, a) ==
    LET w == a[1] IN
    CASE op \in {"new", "clone"} ->
           /\ w \notin live /\ live' = live \cup {w}
           /\ env' = [env EXCEPT ![w] = IF op = "new" THEN Empty ELSE env[0]]
           /\ ret' = [op |-> op, a |-> a, r |-> <<>>]
      [] op = "free" ->
           /\ w # 0 /\ w \in live /\ live' = live \ {w} /\ env' = [env EXCEPT ![w] = Empty]
           /\ ret' = [op |-> op, a |-> a, r |-> <<>>]
      [] op \in {"add", "printf", "vprintf"} -> w \in live /\ Put(w, With(env[w], a[2], a[3]), op, a, <<>>)
      (* the new value is an existing one of the same collection, or made from it *)
      [] op = "copy" -> w \in live /\ a[2] \in DOMAIN env[w] /\ Put(w, With(env[w], a[3], env[w][a[2]]), op, a, <<>>)
      [] op = "double" -> w \in live /\ a[2] \in DOMAIN env[w] /\ Put(w, With(env[w], a[3], env[w][a[2]] \o env[w][a[2]]), op, a, <<>>)
      [] op = "remove" -> w \in live /\ Put(w, Without(env[w], a[2]), op, a, <<>>)
      [] op = "get" -> w \in live /\ Put(w, env[w], op, a, Val(env[w], a[2]))
      [] op = "replace" -> w # 0 /\ w \in live /\ Put(0, env[w], op, a, <<>>)
      [] OTHER -> FALSE
Obs == <<[w \in 1..(NS + 1) |-> [i \in 1..Len(NAMES) |-> Val(env[w - 1], NAMES[i])]], Cardinality(DOMAIN env[0])>>
Names == {NAMES[i] : i \in 1..Len(NAMES)}
Ops == {<<op, <<w>>>> : op \in MCOps \cap {"new", "clone", "free", "replace"}, w \in 1..NS}
       \cup {<<op, <<w, n, v>>>> : op \in MCOps \cap {"add", "printf", "vprintf"}, w \in Worlds, n \in Names, v \in MCVals}
       \cup {<<op, <<w, n>>>> : op \in MCOps \cap {"remove", "get"}, w \in Worlds, n \in Names}
       \cup {<<op, <<w, n, m>>>> : op \in MCOps \cap {"copy"}, w \in Worlds, n \in Names, m \in Names}
Next == \E o \in Ops : Do(o[1], o[2])
Spec == Init /\ [][Next]_vars
View == <<env, live>>
Emit == PrintT("E" \o ToJson(<<ToString(View), ret'.op, ret'.a, ret'.r, Obs', ToString(View')>>))
(* no operation touches a world other than its own; only replace goes from a collection to the process *)
Frame == [][\A w \in Worlds : env'[w] # env[w] => (IF ret'.op = "replace" THEN w = 0 ELSE w = ret'.a[1])]_vars
Dead == \A w \in Worlds : w \notin live => env[w] = Empty
(* after replacing, a new clone equals the collection *)
Exact == [][/\ (ret'.op = "replace" => env'[0] = env[ret'.a[1]])
            /\ (ret'.op = "clone" => env'[ret'.a[1]] = env[0])]_vars
====
