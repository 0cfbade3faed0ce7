---- MODULE Errors ----
(* The error condition of each thread: a 32-bit code (two 16-bit halves; zero
   means no error) and a message (a sequence of characters).  Every operation
   reports the acting thread's whole error condition, as that thread sees it;
   no operation of one thread has any effect on another's. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NT, MCStrs, MCCodes, MCLen, MCOps
VARIABLES err, ret
vars == <<err, ret>>
Threads == 1..NT
None == [code |-> <<0, 0>>, msg |-> <<>>]
Unknown == <<36016, 34829>>                       \* 0x8cb0880d
Init == err = [t \in Threads |-> None] /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Seen(e) == <<IF e.code = <<0, 0>> THEN 0 ELSE 1, e.code, e.msg>>
Become(t, c, m, op, a) ==
    /\ err' = [err EXCEPT ![t] = [None EXCEPT !.code = c, !.msg = m]]
    /\ ret' = [op |-> op, a |-> a, r |-> Seen(err'[t])]
Reset == err' = [t \in Threads |-> None] /\ ret' = [op |-> "reset", a |-> <<>>, r |-> <<>>]
Add(x, y) == LET lo == x[2] + y[2] hi == x[1] + y[1] + (lo \div 65536) IN <<hi % 65536, lo % 65536>>
(* a: thread, code, text *)
Do(op, a) ==
    CASE op \in {"str", "fmt", "vfmt"} -> Become(a[1], a[2], a[3], op, a)
      [] op = "dep" -> Become(a[1], Add(a[2], <<0, a[4]>>), a[3], op, a)               \* the deprecated class + code form
      [] op = "self" -> Become(a[1], a[2], a[3] \o err[a[1]].msg, op, a)                \* a message made from the current one
      [] op = "selftail" -> Become(a[1], a[2], SubSeq(err[a[1]].msg, Len(err[a[1]].msg) - (Len(err[a[1]].msg) \div 2) + 1, Len(err[a[1]].msg)), op, a)
      [] op = "sys" -> Become(a[1], a[2], a[3], op, a)                                  \* code is errno, text is its description
      [] op = "unknown" -> Become(a[1], Unknown, a[3], op, a)
      [] op \in {"prestr", "prefmt", "depre"} -> Become(a[1], err[a[1]].code, a[3] \o err[a[1]].msg, op, a)
      [] op = "preself" -> Become(a[1], err[a[1]].code, err[a[1]].msg \o a[3] \o err[a[1]].msg, op, a)
      [] op = "clear" -> Become(a[1], <<0, 0>>, <<>>, op, a)
      [] op = "get" -> Become(a[1], err[a[1]].code, err[a[1]].msg, op, a)
      (* a function that fails with code a[2], here with text a[3]; one that succeeds *)
      [] op = "fails" -> a[2] # <<0, 0>> /\ a[3] # <<>> /\ Become(a[1], a[2], a[3], op, a)
      (* (it may forget an earlier error, but never sets one) *)
      [] op = "works" -> Become(a[1], err[a[1]].code, err[a[1]].msg, op, a) \/ Become(a[1], <<0, 0>>, <<>>, op, a)
      [] op = "exit" -> UNCHANGED err /\ ret' = [op |-> op, a |-> a, r |-> 0]           \* nothing leaks
Obs == <<>>
Ops == {<<op, <<t, c, s, 7>>>> : op \in MCOps, t \in Threads, c \in MCCodes, s \in MCStrs}
Next == \E o \in Ops : Do(o[1], o[2]) /\ \A t \in Threads : Len(err'[t].msg) <= MCLen
Spec == Init /\ [][Next]_vars
View == err
Emit == PrintT("E" \o ToJson(<<ToString(View), ret'.op, ret'.a, ret'.r, Obs', ToString(View')>>))
(* what one thread does, no other sees *)
Private == [][\A t \in Threads : err'[t] # err[t] => ret'.a[1] = t]_vars
Shape == \A t \in Threads : Len(err[t].msg) <= MCLen
====
