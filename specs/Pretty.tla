---- MODULE Pretty ----
(* The pretty-printing helpers as functions on byte strings.  Every operation
   appends a rendering of `s' (indentation n) to existing content `p'. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS MCAlpha, MCLen, MCInd
VARIABLES ret
vars == ret
Spaces(n) == [i \in 1..n |-> 32]
Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex2(b) == <<Hex(b \div 16), Hex(b % 16)>>
Concat(s, F(_)) == FlattenSeq([i \in 1..Len(s) |-> F(s[i])])
Printable(c) == c >= 32 /\ c <= 126
Esc(c) == CASE c = 34 -> <<92, 34>>  [] c = 92 -> <<92, 92>> [] c = 12 -> <<92, 102>> [] c = 10 -> <<92, 110>>
            [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>> [] c = 11 -> <<92, 118>>
            [] Printable(c) /\ c \notin {34, 92} -> <<c>>
            [] OTHER -> <<92, 120>> \o Hex2(c)
CStr(s) == <<34>> \o Concat(s, Esc) \o <<34>>
Shown(c) == <<IF Printable(c) THEN c ELSE 46>>
HexCell(c) == Hex2(c) \o <<32>>
PadTo(n, s) == s \o Spaces(n - Len(s))
Row(r) == PadTo(48, Concat(r, HexCell)) \o <<32, 124>> \o Concat(r, Shown) \o <<124>>
RECURSIVE Rows(_, _)
Rows(n, s) == IF Len(s) <= 16 THEN Row(s)
              ELSE Row(SubSeq(s, 1, 16)) \o <<10>> \o Spaces(n) \o Rows(n, SubSeq(s, 17, Len(s)))
HexDump(n, s) == IF s = <<>> THEN <<>> ELSE Rows(n, s)
Multi(n, s) == LET Line(c) == IF c = 10 THEN <<10>> \o Spaces(n) ELSE <<c>> IN Concat(s, Line)
White == {9, 10, 11, 12, 13}
Has(s, S(_)) == \E i \in 1..Len(s) : S(s[i])
Odd(c) == ~Printable(c) /\ c \notin White
IsNl(c) == c = 10
HexTag == <<40, 104, 101, 120, 41, 10>>                                              \* (hex)
MultiTag == <<40, 109, 117, 108, 116, 105, 108, 105, 110, 101, 41, 10>>              \* (multiline)
Binary(n, s) == IF Has(s, Odd) THEN HexTag \o Spaces(n) \o HexDump(n, s)
                ELSE IF Has(s, IsNl) THEN MultiTag \o Spaces(n) \o Multi(n, s) ELSE s
Render(op, n, s) == CASE op = "cstr" -> CStr(s) [] op = "hex" -> HexDump(n, s) [] op = "multi" -> Multi(n, s)
                      [] op = "bin" -> Binary(n, s) [] op = "ind" -> Spaces(n)
Init == ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == ret' = [op |-> "reset", a |-> <<>>, r |-> <<>>]
Do(op, a) == ret' = [op |-> op, a |-> a, r |-> a[2] \o Render(op, a[1], a[3])]
Obs == 0
Strings == UNION {[1..k -> MCAlpha] : k \in 0..MCLen}
Next == ret.op = "init" /\ \E op \in {"cstr", "hex", "multi", "bin", "ind"}, n \in MCInd, s \in Strings :
            (op = "cstr" => n = 0) /\ (op = "ind" => s = <<>>) /\ Do(op, <<n, <<>>, s>>)
Spec == Init /\ [][Next]_vars
(* -- what the renderings promise, checked for every bounded input -- *)
RECURSIVE Unesc(_)
Unhex(c) == IF c < 58 THEN c - 48 ELSE c - 87
Unesc(t) == IF t = <<>> THEN <<>>
    ELSE IF t[1] # 92 THEN <<t[1]>> \o Unesc(Tail(t))
    ELSE IF t[2] = 120 THEN <<16 * Unhex(t[3]) + Unhex(t[4])>> \o Unesc(SubSeq(t, 5, Len(t)))
    ELSE <<CASE t[2] = 34 -> 34 [] t[2] = 92 -> 92 [] t[2] = 102 -> 12 [] t[2] = 110 -> 10 [] t[2] = 114 -> 13 [] t[2] = 116 -> 9 [] t[2] = 118 -> 11>>
         \o Unesc(SubSeq(t, 3, Len(t)))
Decodes == ret.op = "cstr" => /\ Unesc(SubSeq(ret.r, 2, Len(ret.r) - 1)) = ret.a[3]
                              /\ \A i \in 1..Len(ret.r) : Printable(ret.r[i])
(* lines of a text *)
RECURSIVE Lines(_, _)
Lines(t, cur) == IF t = <<>> THEN <<cur>> ELSE IF t[1] = 10 THEN <<cur>> \o Lines(Tail(t), <<>>) ELSE Lines(Tail(t), Append(cur, t[1]))
HexBack(l) == LET h == SubSeq(l, 1, 48) IN
    [i \in 1..Cardinality({j \in 0..15 : h[3 * j + 1] # 32}) |-> 16 * Unhex(h[3 * i - 2]) + Unhex(h[3 * i - 1])]
Flat(ss) == FlattenSeq(ss)
HexReversible == (ret.op = "hex" /\ ret.a[3] # <<>>) =>
    LET ls == Lines(ret.r, <<>>)
        n == ret.a[1]
        body == [i \in 1..Len(ls) |-> IF i = 1 THEN ls[i] ELSE SubSeq(ls[i], n + 1, Len(ls[i]))]
    IN /\ Flat([i \in 1..Len(body) |-> HexBack(body[i])]) = ret.a[3]
       /\ \A i \in 2..Len(ls) : SubSeq(ls[i], 1, n) = Spaces(n)
       /\ ret.r[Len(ret.r)] = 124
MultiReversible == ret.op = "multi" =>
    LET ls == Lines(ret.r, <<>>)
        src == Lines(ret.a[3], <<>>)
    IN Len(ls) = Len(src) /\ \A i \in 1..Len(ls) : ls[i] = (IF i = 1 THEN <<>> ELSE Spaces(ret.a[1])) \o src[i]
====
