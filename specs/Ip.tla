---- MODULE Ip ----
(* IPv4 and IPv6 addresses as texts (sequences of character codes) and as byte
   sequences in network order.  kind: 4, 6, or 0 for the generic form. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS MCWords,          \* what each group of a printed IPv6 address ranges over in the model
          MCTokens, MCTexts \* texts made of at most MCTexts tokens
VARIABLES ret
vars == ret
Dot == 46
Colon == 58
(* the parts of s between the separators c *)
Cuts(s, c) == LET is == {i \in 1..Len(s) : s[i] = c} IN SetToSortSeq(is, <)
Split(s, c) == LET k == Cuts(s, c) IN
    [j \in 1..(Len(k) + 1) |-> SubSeq(s, IF j = 1 THEN 1 ELSE k[j - 1] + 1, IF j > Len(k) THEN Len(s) ELSE k[j] - 1)]
Digit(x) == x \in 48..57
Hexit(x) == Digit(x) \/ x \in 65..70 \/ x \in 97..102
HexVal(x) == IF Digit(x) THEN x - 48 ELSE IF x < 71 THEN x - 55 ELSE x - 87
All(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
(* values stop growing once out of range *)
Dec(s) == FoldLeft(LAMBDA v, x : IF v > 255 THEN v ELSE 10 * v + (x - 48), 0, s)
HexNum(s) == FoldLeft(LAMBDA v, x : 16 * v + HexVal(x), 0, s)
Octet(s) == s # <<>> /\ All(s, Digit) /\ Dec(s) <= 255
Hextet(s) == Len(s) \in 1..4 /\ All(s, Hexit)
Bad == <<>>
(* -- reading: the address's bytes, or Bad -- *)
V4(s) == LET ps == Split(s, Dot) IN
    IF Len(ps) = 4 /\ \A i \in 1..4 : Octet(ps[i]) THEN [i \in 1..4 |-> Dec(ps[i])] ELSE Bad
Two(s) == LET v == HexNum(s) IN <<v \div 256, v % 256>>
(* the bytes of a list of groups, the last of which may be a dotted quad if `tail' *)
IsTail(s, tail) == tail /\ V4(s) # Bad
GroupsOk(ps, tail) == \A i \in 1..Len(ps) : Hextet(ps[i]) \/ (i = Len(ps) /\ IsTail(ps[i], tail))
Bytes(ps) == FlattenSeq([i \in 1..Len(ps) |-> IF Hextet(ps[i]) THEN Two(ps[i]) ELSE V4(ps[i])])
PartsOf(s) == IF s = <<>> THEN <<>> ELSE Split(s, Colon)
Zeros(n) == [i \in 1..n |-> 0]
V6(s) ==
    LET dc == {i \in 1..(Len(s) - 1) : s[i] = Colon /\ s[i + 1] = Colon} IN
    CASE dc = {} -> LET ps == Split(s, Colon) IN
            IF GroupsOk(ps, Len(ps) > 1) /\ Len(Bytes(ps)) = 16 THEN Bytes(ps) ELSE Bad
      [] Cardinality(dc) = 1 ->
            LET i == CHOOSE i \in dc : TRUE
                l == PartsOf(SubSeq(s, 1, i - 1))
                r == PartsOf(SubSeq(s, i + 2, Len(s))) IN
            IF GroupsOk(l, FALSE) /\ GroupsOk(r, TRUE) /\ Len(Bytes(l)) + Len(Bytes(r)) <= 14
            THEN Bytes(l) \o Zeros(16 - Len(Bytes(l)) - Len(Bytes(r))) \o Bytes(r) ELSE Bad
      [] OTHER -> Bad
(* a dotted quad within an IPv6 address whose first number is written with more
   than four digits may also be refused *)
Unsure(s) == V6(s) # Bad /\ \E i \in 1..Len(s) : s[i] = Dot /\ Len(Last(Split(s, Colon))) # 0
             /\ Len(Split(Last(Split(s, Colon)), Dot)[1]) > 4
Rejected == <<-1, 0, <<>>>>
Parse(kind, s) ==
    LET a4 == IF kind = 6 THEN Bad ELSE V4(s)
        a6 == IF kind = 4 THEN Bad ELSE V6(s) IN
    IF a4 # Bad THEN {<<0, 4, a4>>}
    ELSE IF a6 # Bad THEN {<<0, 6, a6>>} \cup (IF Unsure(s) THEN {Rejected} ELSE {})
    ELSE {Rejected}
(* -- printing -- *)
RECURSIVE DecStr(_), HexStr(_)
DecStr(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecStr(n \div 10), 48 + (n % 10))
HexChar(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexStr(n) == IF n < 16 THEN <<HexChar(n)>> ELSE Append(HexStr(n \div 16), HexChar(n % 16))
Join(ps, c) == IF ps = <<>> THEN <<>> ELSE FoldLeft(LAMBDA t, p : t \o <<c>> \o p, Head(ps), Tail(ps))
Print4(b) == Join([i \in 1..4 |-> DecStr(b[i])], Dot)
Words(b) == [i \in 1..8 |-> 256 * b[(2 * i) - 1] + b[2 * i]]
(* the first longest run of at least two zero groups: <<from, to>>, or <<0, 0>> *)
Run(w) ==
    LET rs == {<<i, j>> \in (1..8) \X (1..8) : i < j /\ \A k \in i..j : w[k] = 0} IN
    IF rs = {} THEN <<0, 0>> ELSE CHOOSE r \in rs : \A q \in rs : q[2] - q[1] < r[2] - r[1] \/ (q[2] - q[1] = r[2] - r[1] /\ r[1] <= q[1])
Print6(b) ==
    LET w == Words(b) r == Run(w)
        Grp(i, j) == Join([k \in 1..(j - i + 1) |-> HexStr(w[i + k - 1])], Colon)
        v4 == SubSeq(b, 13, 16) IN
    CASE r = <<1, 6>> -> <<Colon, Colon>> \o Print4(v4)                                     \* ::a.b.c.d
      [] r = <<1, 5>> /\ w[6] = 65535 -> <<Colon, Colon>> \o HexStr(w[6]) \o <<Colon>> \o Print4(v4)   \* ::ffff:a.b.c.d
      [] r = <<0, 0>> -> Grp(1, 8)
      [] OTHER -> Grp(1, r[1] - 1) \o <<Colon, Colon>> \o Grp(r[2] + 1, 8)
TextOf(version, b) == IF version = 4 THEN Print4(b) ELSE Print6(b)
(* -- networks: which prefix lengths leave no bit set behind them -- *)
Pow2 == <<128, 64, 32, 16, 8, 4, 2, 1>>
Bit(b, i) == (b[(i \div 8) + 1] \div Pow2[(i % 8) + 1]) % 2        \* bit 0 is the first one
LastBit(b) == LET is == {i \in 0..(8 * Len(b) - 1) : Bit(b, i) = 1} IN IF is = {} THEN -1 ELSE CHOOSE i \in is : \A j \in is : j <= i
Network(b, p) == IF p <= 8 * Len(b) /\ p >= 0 /\ LastBit(b) < p THEN 1 ELSE 0
Init == ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == ret' = [op |-> "reset", a |-> <<>>, r |-> <<>>]
Is(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
Do(op, a) ==
    CASE op = "parse" -> \E r \in Parse(a[1], a[2]) : Is(op, a, r)
      [] op = "print" -> Is(op, a, TextOf(a[2], a[3]))
      (* copied, printed, read back, and compared with the original *)
      [] op = "round" -> Is(op, a, <<TextOf(a[2], a[3]), 0, 1>>)
      [] op = "equal" -> Is(op, a, IF a[2] = a[4] /\ a[3] = a[5] THEN 1 ELSE 0)
      [] op = "copy" -> Is(op, a, <<a[2], a[3]>>)
      (* the answers for every prefix length of a list; a negative one stands for 2^32 minus it *)
      [] op = "nets" -> Is(op, a, [i \in 1..Len(a[4]) |-> Network(a[3], a[4][i])])
      [] OTHER -> FALSE
Obs == 0
(* -- what reading and printing promise, for all bounded addresses and texts -- *)
Addr6 == {FlattenSeq([i \in 1..8 |-> <<w[i] \div 256, w[i] % 256>>]) : w \in [1..8 -> MCWords]}
Octets == {0, 1, 9, 10, 99, 100, 255}
Addr4 == [1..4 -> Octets]
Texts == {FlattenSeq(t) : t \in UNION {[1..n -> MCTokens] : n \in 0..MCTexts}}
Next == /\ ret.op = "init"
        /\ \/ \E b \in Addr6 : Do("round", <<6, 6, b>>)
           \/ \E b \in Addr4 : Do("round", <<4, 4, b>>)
           \/ \E s \in Texts, k \in {0, 4, 6} : Do("parse", <<k, s>>)
Spec == Init /\ [][Next]_vars
(* printing is canonical: read back it is the same address, in the version's own form and in no other, and no text
   that denotes the address, with every group written out or not, is shorter by leaving out a run of zeros *)
RoundTrip == ret.op = "round" => LET t == TextOf(ret.a[2], ret.a[3]) IN
    /\ Parse(ret.a[2], t) = {<<0, ret.a[2], ret.a[3]>>}
    /\ Parse(0, t) = {<<0, ret.a[2], ret.a[3]>>}
    /\ Parse(10 - ret.a[2], t) = {Rejected}
    /\ Len(t) <= (IF ret.a[2] = 4 THEN 15 ELSE 45)
    /\ \A i \in 1..Len(t) : t[i] \notin 65..70
    (* no part has a leading zero *)
    /\ \A p \in {q \in Range(Split(t, Colon)) : Len(q) > 1} : ret.a[2] = 6 /\ Hextet(p) => p[1] # 48
Generic == ret.op = "parse" =>
    LET s == ret.a[2] IN Parse(0, s) = (IF V4(s) # Bad THEN Parse(4, s) ELSE Parse(6, s)) /\ (V4(s) = Bad \/ V6(s) = Bad)
(* what an accepted text is made of *)
Shape == ret.op = "parse" /\ ret.r[1] = 0 => LET s == ret.a[2] IN
    /\ \A i \in 1..Len(s) : Hexit(s[i]) \/ s[i] \in {Dot, Colon}
    /\ s # <<>> /\ (s[1] # Colon \/ s[2] = Colon) /\ (s[Len(s)] # Colon \/ s[Len(s) - 1] = Colon) /\ s[Len(s)] # Dot
    /\ Len(ret.r[3]) = (IF ret.r[2] = 4 THEN 4 ELSE 16)
(* 0 allows nothing but the zero address; the full width allows everything; longer prefixes allow more; beyond it nothing;
   an address is a network of p exactly when clearing what follows the first p bits doesn't change it *)
Cleared(b, p) == [i \in 1..Len(b) |-> LET k == p - 8 * (i - 1) IN IF k >= 8 THEN b[i] ELSE IF k <= 0 THEN 0 ELSE b[i] - (b[i] % (2 ^ (8 - k)))]
NetworkLaws == ret.op = "round" => LET b == ret.a[3] w == 8 * Len(b) IN
    /\ (Network(b, 0) = 1) = (\A i \in 1..Len(b) : b[i] = 0) /\ Network(b, w) = 1 /\ Network(b, w + 1) = 0
    /\ \A p \in 0..(w - 1) : Network(b, p) <= Network(b, p + 1)
    /\ \A p \in 0..w : (Network(b, p) = 1) = (Cleared(b, p) = b)
====
