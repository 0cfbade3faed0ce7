---- MODULE Checked ----
(* The macros that check a call and hand its failure on.  A program is a chain of
   functions, the outermost first: each makes one call under one macro, of the next
   function or, in the last one, of a scripted function.  A level is
   <<macro, other, ptr>>: other is the result that the x macros are given (0 or NULL
   in a function that returns a pointer), ptr 1 if the function returns a pointer.
   A script says what each call of the scripted function answers:
   <<value, code, errno>>, code # 0 if it sets an error condition itself. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MCLevels, MCScripts, MCDepth
VARIABLES err, ret
vars == <<err, ret>>
EINTR == 4
Init == err = 0 /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == err' = 0 /\ ret' = [op |-> "reset", a |-> <<>>, r |-> <<>>]
Jump == {"ee", "ei", "ep", "ei_posix", "ep_posix"}
ByError == {"ee", "xe", "rie", "rpe"}
ByInt == {"ei", "xi", "rii", "rpi"}
ByPtr == {"ep", "xp", "rip", "rpp"}
PosixInt == {"ei_posix", "rii_posix", "rpi_posix"}
PosixPtr == {"ep_posix", "rip_posix", "rpp_posix"}
Posix == PosixInt \cup PosixPtr
TakesPtr == ByPtr \cup PosixPtr
Given == {"xe", "xi", "xp"}
(* has the call failed that answered v, given the error condition that holds after it? *)
Failed(m, v, e) == CASE m \in ByError -> e # 0 [] m \in ByInt -> v # 0 [] m \in TakesPtr -> v = 0 [] OTHER -> v = -1
(* the scripted call: a POSIX call that was interrupted is made again; <<value, error, calls, errno>> *)
RECURSIVE Leaf(_, _, _, _)
Leaf(m, sc, k, e) ==
    LET x == sc[k] e1 == IF x[2] # 0 THEN x[2] ELSE e IN
    IF m \in Posix /\ Failed(m, x[1], 0) /\ x[3] = EINTR THEN Leaf(m, sc, k + 1, e1) ELSE <<x[1], e1, k, x[3]>>
(* what function n of the chain answers: <<value, error, calls, levels passed, levels left by the error label>> *)
RECURSIVE Run(_, _, _, _)
Run(ls, n, sc, e) ==
    LET l == ls[n] m == l[1]
        in == IF n < Len(ls) THEN Run(ls, n + 1, sc, e) ELSE LET x == Leaf(m, sc, 1, e) IN <<x[1], x[2], x[3], <<>>, <<>>, x[4]>>
        bad == Failed(m, in[1], in[2])
        e2 == IF bad /\ m \in Posix THEN in[6] ELSE in[2]
        v == IF ~bad THEN l[3]
             ELSE IF m \in Given THEN l[2]
             ELSE IF l[3] = 1 THEN 0
             ELSE IF m = "rii" THEN in[1]
             ELSE -1
    IN <<v, e2, in[3], IF bad THEN in[4] ELSE Append(in[4], n), IF bad /\ m \in Jump THEN Append(in[5], n) ELSE in[5]>>
Done(e, op, a, r) == err' = e /\ ret' = [op |-> op, a |-> a, r |-> r]
Do(op, a) ==
    CASE op = "set" -> Done(a[1], op, a, <<>>)
      [] op = "clear" -> Done(0, op, a, <<>>)
      [] op = "run" -> LET x == Run(a[1], 1, a[2], err) IN Done(x[2], op, a, <<x[1], x[3], x[4], x[5]>>)
      (* is the process still alive after having insisted on a pointer that is a[1]; an unreachable place is one of no return *)
      [] op = "insist" -> Done(err, op, a, IF a[1] = 1 THEN <<"alive">> ELSE <<"aborted">>)
      [] op = "unreachable" -> Done(err, op, a, <<"aborted">>)
      [] OTHER -> FALSE
Obs == err
(* chains that compile: a macro's call has the type it is for; the POSIX ones call the system *)
Fits(ls) == \A n \in 1..Len(ls) :
    /\ ls[n][1] \in Posix => n = Len(ls)
    /\ n < Len(ls) => (ls[n][1] \in ByPtr) = (ls[n + 1][3] = 1)
    /\ ls[n][1] \in {"rpe", "rpi", "rpp", "rpi_posix", "rpp_posix"} => ls[n][3] = 1
    /\ ls[n][1] \in {"rie", "rii", "rip", "rii_posix", "rip_posix"} => ls[n][3] = 0
    /\ ls[n][3] = 1 => ls[n][2] = 0
Ends(ls, sc) == LET x == sc[Len(sc)] IN ~(Failed(ls[Len(ls)][1], x[1], 0) /\ x[3] \in {0, EINTR} /\ ls[Len(ls)][1] \in Posix)
Chains == {ls \in UNION {[1..n -> MCLevels] : n \in 1..MCDepth} : Fits(ls)}
Next == \/ \E ls \in Chains, sc \in MCScripts : Ends(ls, sc) /\ Do("run", <<ls, sc>>)
        \/ err = 0 /\ Do("set", <<9>>)
        \/ err # 0 /\ Do("clear", <<>>)
Spec == Init /\ [][Next]_vars
View == err
Emit == PrintT("E" \o ToJson(<<ToString(View), ret'.op, ret'.a, ret'.r, Obs', ToString(View')>>))
(* what is checked of the rules themselves *)
Last(q) == q[Len(q)]
Rules == [][ret'.op = "run" =>
    LET ls == ret'.a[1] sc == ret'.a[2] v == ret'.r[1] calls == ret'.r[2] passed == ret'.r[3] jumped == ret'.r[4] m == Last(ls)[1] IN
    /\ calls \in 1..Len(sc)                                       \* only an interrupted call is made again
    /\ calls > 1 => m \in Posix /\ \A k \in 1..(calls - 1) : sc[k][3] = EINTR
    /\ \A i \in 1..Len(passed) : \A j \in 1..Len(jumped) : passed[i] # jumped[j]
    /\ (Failed(m, sc[calls][1], sc[calls][2]) /\ m \in Posix) => err' = sc[calls][3]    \* the system's error is what is reported
    /\ m \notin Posix => err' = (IF sc[calls][2] # 0 THEN sc[calls][2] ELSE err)        \* otherwise nobody touches the condition
    /\ (v = Last(<<ls[1]>>)[3] /\ Len(passed) = Len(ls)) \/ Len(passed) < Len(ls)
    (* a failure goes all the way up unless someone answers success in its place *)
    /\ (\A n \in 1..Len(ls) : ls[n][1] \in ByInt \cup ByPtr \cup Posix /\ (ls[n][1] \in Given /\ ls[n][3] = 0 => ls[n][2] # 0)) /\ Len(passed) > 0
          => Len(passed) = Len(ls)]_vars
====
