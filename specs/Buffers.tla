---- MODULE Buffers ----
(* Two byte buffers.  Bytes are numbers 0..255. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MCBytes, MCMax, MCEns
VARIABLES B, ret
vars == <<B, ret>>
Lits == <<<<>>, <<97>>, <<97, 0, 98>>, <<104, 101, 108, 108, 111, 32, 119, 111, 114, 108, 100, 32, 105, 110, 32, 97, 32, 98, 117, 102>>>>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Dec(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)
Spaces(n) == [i \in 1..n |-> 32]
Pad(n, s) == IF Len(s) < n THEN Spaces(n - Len(s)) \o s ELSE s
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
(* the formats the driver uses *)
Fmt(k, s, n) ==
    CASE k = 1 -> s
      [] k = 2 -> Dec(n)
      [] k = 3 -> <<60>> \o s \o <<124>> \o Pad(5, Dec(n)) \o <<62, 37>>
      [] k = 4 -> <<>>                                          \* ""
      [] k = 5 -> s \o s
      [] k = 6 -> Pad(n, s)
Done(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
Init == B = <<<<>>, <<>>>> /\ ret = [op |-> "init", a |-> <<>>, r |-> 0]
Reset == B' = <<<<>>, <<>>>> /\ Done("reset", <<>>, 0)
Put(op, a, i, s) == B' = [B EXCEPT ![i] = s] /\ Done(op, a, 0)
Do(op, a) ==
    CASE op \in {"set", "sets"} -> Put(op, a, a[1], a[2])
      [] op \in {"app", "apps", "cons"} -> Put(op, a, a[1], B[a[1]] \o a[2])
      [] op = "setl" -> Put(op, a, a[1], Lits[a[2]])
      [] op = "appl" -> Put(op, a, a[1], B[a[1]] \o Lits[a[2]])
      [] op \in {"pf", "vpf"} -> Put(op, a, a[1], Fmt(a[2], a[3], a[4]))
      [] op \in {"apf", "avpf"} -> Put(op, a, a[1], B[a[1]] \o Fmt(a[2], a[3], a[4]))
      [] op = "copy" -> Put(op, a, a[1], B[3 - a[1]])
      [] op = "appc" -> Put(op, a, a[1], B[a[1]] \o B[3 - a[1]])
      [] op = "trunc" -> Put(op, a, a[1], SubSeq(B[a[1]], 1, IF a[2] < Len(B[a[1]]) THEN a[2] ELSE Len(B[a[1]])))
      [] op = "ind" -> Put(op, a, a[1], B[a[1]] \o Spaces(a[2]))
      [] op \in {"clear", "renew"} -> Put(op, a, a[1], <<>>)
      [] op = "ens" -> Put(op, a, a[1], B[a[1]])
      [] op = "eq" -> UNCHANGED B /\ Done(op, a, IF B[1] = B[2] THEN 1 ELSE 0)
      [] op = "eqself" -> UNCHANGED B /\ Done(op, a, 1)
(* size, bytes, flag for a missing NUL *)
Obs == [i \in 1..2 |-> <<Len(B[i]), B[i], 0>>]
I2 == 1..2
Texts == {s \in MCBytes : \A j \in 1..Len(s) : s[j] # 0}
Ops == {<<o, <<i, s>>>> : o \in {"set", "app", "cons"}, i \in I2, s \in MCBytes}
       \cup {<<o, <<i, s>>>> : o \in {"sets", "apps"}, i \in I2, s \in Texts}
       \cup {<<o, <<i, k>>>> : o \in {"setl", "appl"}, i \in I2, k \in {1, 3}}
       \cup {<<o, <<i, k, s, n>>>> : o \in {"pf", "vpf", "apf", "avpf"}, i \in I2, k \in {1, 4}, s \in Texts, n \in {0}}
       \cup {<<o, <<i>>>> : o \in {"copy", "appc", "clear", "renew"}, i \in I2}
       \cup {<<"trunc", <<i, n>>>> : i \in I2, n \in 0..MCMax}
       \cup {<<"ens", <<i, n>>>> : i \in I2, n \in MCEns}
       \cup {<<"ind", <<i, n>>>> : i \in I2, n \in {0, 1}}
       \cup {<<"eq", <<>>>>}
Next == \E o \in Ops : Do(o[1], o[2]) /\ Len(B'[1]) <= MCMax /\ Len(B'[2]) <= MCMax
Spec == Init /\ [][Next]_vars
View == B
Emit == PrintT("E" \o ToJson(<<ToString(View), ret'.op, ret'.a, ret'.r, Obs', ToString(View')>>))
IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
AppendOnly == [][ret'.op \in {"app", "apps", "appl", "apf", "avpf", "appc", "ind", "cons"} => \A i \in I2 : IsPrefix(B[i], B'[i])]_vars
OneBuffer == [][ret'.op \notin {"reset", "eq", "eqself"} => B'[3 - ret'.a[1]] = B[3 - ret'.a[1]]]_vars
====
