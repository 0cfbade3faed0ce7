---- MODULE Arrays ----
(* Two growable arrays of numbers with the element-wise operations. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MCVals, MCMax, MCEns
VARIABLES A, ret
vars == <<A, ret>>
Done(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
Init == A = <<<<>>, <<>>>> /\ ret = [op |-> "init", a |-> <<>>, r |-> 0]
Reset == A' = <<<<>>, <<>>>> /\ Done("reset", <<>>, 0)
Append1(op, i, v) == A' = [A EXCEPT ![i] = Append(@, v)] /\ Done(op, <<i, v>>, 0)
RemoveRange(i, p, n) == /\ p + n <= Len(A[i])
    /\ A' = [A EXCEPT ![i] = SubSeq(@, 1, p) \o SubSeq(@, p + n + 1, Len(@))] /\ Done("rmr", <<i, p, n>>, 0)
Remove1(i, p) == /\ p < Len(A[i])
    /\ A' = [A EXCEPT ![i] = SubSeq(@, 1, p) \o SubSeq(@, p + 2, Len(@))] /\ Done("rm", <<i, p>>, 0)
Clear(i) == A' = [A EXCEPT ![i] = <<>>] /\ Done("clear", <<i>>, 0)
(* n elements appended at once: v, v + 1, ... modulo 250 *)
Fill(i, n, v) == A' = [A EXCEPT ![i] = @ \o [k \in 1..n |-> (v + k - 1) % 250]] /\ Done("fill", <<i, n, v>>, 0)
Ensure(i, n) == UNCHANGED A /\ Done("ens", <<i, n>>, 0)
SetAt(i, p, v) == p < Len(A[i]) /\ A' = [A EXCEPT ![i][p + 1] = v] /\ Done("set", <<i, p, v>>, 0)
(* copy A[s] onto A[3-s]; f is the index of the element whose copier fails
   (-1: bulk copy, -2: a copier that never fails).  After a failure the caller
   clears the destination. *)
Copy(s, f) ==
    LET d == 3 - s
        fails == f >= 0 /\ f < Len(A[s])
    IN /\ A' = [A EXCEPT ![d] = IF fails THEN <<>> ELSE A[s]]
       /\ Done("copy", <<s, f>>, IF fails THEN 1 ELSE 0)
Renew(i) == A' = [A EXCEPT ![i] = <<>>] /\ Done("renew", <<i>>, 0)     \* done, then init again
Do(op, a) ==
    CASE op \in {"app", "apg"} -> Append1(op, a[1], a[2])
      [] op = "rmr" -> RemoveRange(a[1], a[2], a[3])
      [] op = "rm" -> Remove1(a[1], a[2])
      [] op = "clear" -> Clear(a[1])
      [] op = "ens" -> Ensure(a[1], a[2])
      [] op = "set" -> SetAt(a[1], a[2], a[3])
      [] op = "copy" -> Copy(a[1], a[2])
      [] op = "fill" -> Fill(a[1], a[2], a[3])
      [] op = "renew" -> Renew(a[1])
Obs == [i \in 1..2 |-> <<A[i], Len(A[i]), IF A[i] = <<>> THEN 1 ELSE 0>>]
I2 == 1..2
Ops == {<<o, <<i, v>>>> : o \in {"app", "apg"}, i \in I2, v \in MCVals}
       \cup {<<"rmr", <<i, p, n>>>> : i \in I2, p \in 0..MCMax, n \in 0..MCMax}
       \cup {<<"rm", <<i, p>>>> : i \in I2, p \in 0..MCMax}
       \cup {<<"set", <<i, p, v>>>> : i \in I2, p \in {0, MCMax - 1}, v \in MCVals}
       \cup {<<o, <<i>>>> : o \in {"clear", "renew"}, i \in I2}
       \cup {<<"ens", <<i, n>>>> : i \in I2, n \in MCEns}
       \cup {<<"copy", <<s, f>>>> : s \in I2, f \in -2..(MCMax - 1)}
Next == \E o \in Ops : /\ (o[1] \in {"app", "apg"} => Len(A[o[2][1]]) < MCMax) /\ Do(o[1], o[2])
Spec == Init /\ [][Next]_vars
View == A
Emit == PrintT("E" \o ToJson(<<ToString(View), ret'.op, ret'.a, ret'.r, Obs', ToString(View')>>))
(* reserving capacity never changes anything; an operation on one array leaves
   the other alone *)
EnsureInert == [][ret'.op = "ens" => A' = A]_vars
Independent == [][ret'.op \notin {"copy", "reset"} => A'[3 - ret'.a[1]] = A[3 - ret'.a[1]]]_vars
CopyLen == [][(ret'.op = "copy" /\ ret'.r = 0) => A'[1] = A'[2] /\ A'[ret'.a[1]] = A[ret'.a[1]]]_vars
====
