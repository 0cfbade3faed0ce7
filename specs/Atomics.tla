---- MODULE Atomics ----
(* Shared variables of four kinds (i: int, u: unsigned, s: size, p: pointer),
   each a sequence of 16-bit limbs, most significant first.  An operation is
   called and later returns; somewhere in between it takes effect, at once.  A
   history is allowed if some such order of effects explains every result. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NT, MCTys, MCFs, MCVals, MCCalls
VARIABLES val, pend, ncalls, ret
vars == <<val, pend, ncalls, ret>>
Threads == 1..NT
Tys == {"i", "u", "s", "p"}
Idle == [on |-> 0, done |-> 0, ty |-> "i", f |-> "", x |-> <<>>, y |-> <<>>, res |-> <<>>]
Zero(n) == [k \in 1..n |-> 0]
Width(ty) == IF ty \in {"i", "u"} THEN 2 ELSE 4
Out(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
Init == val = [ty \in Tys |-> Zero(Width(ty))] /\ pend = [t \in Threads |-> Idle] /\ ncalls = 0 /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == val' = [ty \in Tys |-> Zero(Width(ty))] /\ pend' = [t \in Threads |-> Idle] /\ ncalls' = 0 /\ Out("reset", <<>>, <<>>)
Start(v2, v4) == val' = [ty \in Tys |-> IF Width(ty) = 2 THEN v2 ELSE v4] /\ UNCHANGED <<pend, ncalls>> /\ Out("start", <<v2, v4>>, <<>>)
RECURSIVE Carry(_, _, _, _)
(* x + y + c over limbs, and x - y as x + (complement of y) + 1 *)
Carry(x, y, k, c) == IF k = 0 THEN <<>> ELSE LET s == x[k] + y[k] + c IN Append(Carry(x, y, k - 1, s \div 65536), s % 65536)
Plus(x, y) == Carry(x, y, Len(x), 0)
Minus(x, y) == Carry(x, [k \in 1..Len(y) |-> 65535 - y[k]], Len(x), 1)
(* <<new value, result>> *)
Effect(f, v, x, y) ==
    CASE f = "add" -> <<Plus(v, x), Plus(v, x)>> [] f = "padd" -> <<Plus(v, x), v>>
      [] f = "sub" -> <<Minus(v, x), Minus(v, x)>> [] f = "psub" -> <<Minus(v, x), v>>
      [] f = "cas" -> <<IF v = x THEN y ELSE v, v>>
Waiting == {t \in Threads : pend[t].on = 1 /\ pend[t].done = 0}
Call(t, ty, f, x, y) ==
    /\ pend[t].on = 0
    /\ pend' = [pend EXCEPT ![t] = [Idle EXCEPT !.on = 1, !.ty = ty, !.f = f, !.x = x, !.y = y]]
    /\ UNCHANGED val /\ ncalls' = ncalls + 1 /\ Out("call", <<t, ty, f, x, y>>, <<>>)
RECURSIVE Apply(_, _)
Apply(w, ts) ==                          \* w = [val, pend]; the operations of ts take effect in order
    IF ts = <<>> THEN w
    ELSE LET t == Head(ts)
             q == w.pend[t]
             e == Effect(q.f, w.val[q.ty], q.x, q.y)
         IN Apply([val |-> [w.val EXCEPT ![q.ty] = e[1]], pend |-> [w.pend EXCEPT ![t].done = 1, ![t].res = e[2]]], Tail(ts))
Orders(S, t) == {o \in UNION {[1..n -> S] : n \in 1..Cardinality(S)} : o[Len(o)] = t /\ \A i, j \in 1..Len(o) : i # j => o[i] # o[j]}
Ret(t) ==
    /\ pend[t].on = 1
    /\ \E o \in (IF pend[t].done = 1 THEN {<<>>} ELSE Orders(Waiting, t)) :
         LET w == Apply([val |-> val, pend |-> pend], o)
         IN val' = w.val /\ pend' = [w.pend EXCEPT ![t] = Idle] /\ UNCHANGED ncalls /\ Out("ret", <<t>>, w.pend[t].res)
Final == /\ \A t \in Threads : pend[t].on = 0
         /\ UNCHANGED <<val, pend, ncalls>> /\ Out("final", <<>>, <<val["i"], val["u"], val["s"], val["p"]>>)
Do(op, a) ==
    CASE op = "start" -> Start(a[1], a[2]) [] op = "call" -> Call(a[1], a[2], a[3], a[4], a[5]) [] op = "ret" -> Ret(a[1])
      [] op = "final" -> Final [] op = "exit" -> UNCHANGED <<val, pend, ncalls>> /\ Out("exit", a, 0)
      [] OTHER -> FALSE
Obs == <<>>
Next == \E t \in Threads :
          \/ ncalls < MCCalls /\ \E ty \in MCTys, f \in MCFs, x \in MCVals, y \in MCVals : Call(t, ty, f, x, y)
          \/ Ret(t)
Spec == Init /\ [][Next]_vars
View == <<val, pend, ncalls>>
Widths == \A ty \in Tys : Len(val[ty]) = Width(ty) /\ \A k \in 1..Width(ty) : val[ty][k] \in 0..65535
(* with additions of one only, no update is lost: the value counts them *)
Finished == {t \in Threads : pend[t].on = 1 /\ pend[t].done = 0}
NoneLost == (MCFs = {"add"} /\ MCVals = {<<0, 1>>} /\ MCTys = {"u"}) => val["u"] = <<0, ncalls - Cardinality(Waiting)>>
(* a compare-and-swap changes the variable only by putting its own new value *)
CasOnly == [][(MCFs = {"cas"} /\ val' # val) => \E t \in Threads : pend[t].on = 1 /\ val[pend[t].ty] = pend[t].x]_vars
====
