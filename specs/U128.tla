---- MODULE U128 ----
(* 128-bit unsigned integers: a register holding a value, as a sequence of base-256
   digits (Nat256).  Arguments and results are sequences of bytes, the most
   significant first.  Shifts count bits. *)
EXTENDS Nat256, TLC, Json
CONSTANTS MCVals, MCShifts
VARIABLES v, ret
vars == <<v, ret>>
N == 16
Zero == [i \in 1..N |-> 0]
Init == v = Zero /\ ret = [op |-> "init", a |-> <<>>, r |-> 0]
Reset == v' = Zero /\ ret' = [op |-> "reset", a |-> <<>>, r |-> 0]
Bytes(b) == The({Reverse(x) : x \in {b}})
Pow2(n) == <<1, 2, 4, 8, 16, 32, 64, 128>>[n + 1]
(* by whole bytes, then by the bits that remain *)
At(x, i) == IF i \in 1..N THEN x[i] ELSE 0
ShlV(x, n) == [i \in 1..N |-> ((At(x, i - (n \div 8)) * Pow2(n % 8)) % 256) + ((At(x, (i - (n \div 8)) - 1) * Pow2(n % 8)) \div 256)]
ShrV(x, n) == [i \in 1..N |-> (At(x, i + (n \div 8)) \div Pow2(n % 8)) + (IF n % 8 = 0 THEN 0 ELSE (At(x, (i + (n \div 8)) + 1) * Pow2(8 - (n % 8))) % 256)]
Shl(a, n) == The({ShlV(x, n) : x \in {a}})
Shr(a, n) == The({ShrV(x, n) : x \in {a}})
B(p) == IF p THEN 1 ELSE 0
Compare(c) == <<B(c = 0), B(c # 0), B(c < 0), B(c <= 0), B(c > 0), B(c >= 0)>>
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
PaddedHex(be) == FoldLeft(LAMBDA s, x : s \o <<HexDigit(x \div 16), HexDigit(x % 16)>>, <<>>, be)
Strip(t) == LET nz == {i \in 1..Len(t) : t[i] # 48} IN IF nz = {} THEN <<48>> ELSE SubSeq(t, CHOOSE i \in nz : \A j \in nz : i <= j, Len(t))
Hex(be) == The({Strip(t) : t \in {PaddedHex(be)}})
Set(x, op, a, r) == v' \in {x} /\ ret' = [op |-> op, a |-> a, r |-> r]
Do(op, a) ==
    CASE op \in {"load", "loadp"} -> Set(Bytes(a[2]), op, a, 0)                       \* from two 64-bit or four 32-bit pieces, or piece by piece
      [] op = "zero" -> Set(Zero, op, a, 0)
      [] op = "add" -> Set(AddMod(v, Bytes(a[1]), N), op, a, 0)
      [] op = "sub" -> Set(SubMod(v, Bytes(a[1]), N), op, a, 0)
      [] op = "rsub" -> Set(SubMod(Bytes(a[1]), v, N), op, a, 0)
      [] op = "shl" -> Set(Shl(v, a[1]), op, a, 0)
      [] op = "shr" -> Set(Shr(v, a[1]), op, a, 0)
      [] op = "swap" -> Set(Bytes(v), op, a, 0)                                        \* reversing the bytes, or between big-endian and this little-endian host
      [] op = "keep" -> Set(v, op, a, 0)                                               \* between little-endian and host
      (* assigning to the i-th piece of w bytes, counted from the most significant *)
      [] op = "put" -> Set(Bytes([j \in 1..N |-> IF (j - 1) \div a[1] = a[2] THEN a[3][((j - 1) % a[1]) + 1] ELSE v[(N + 1) - j]]), op, a, 0)
      [] op = "get" -> Set(v, op, a, [j \in 1..a[1] |-> v[(N + 1) - ((a[2] * a[1]) + j)]])
      (* the register against the argument, and the other way round *)
      [] op = "cmp" -> \E c \in {Cmp(v, Bytes(a[1]))} : Set(v, op, a, <<Compare(c), Compare(0 - c)>>)
      [] op = "dec" -> Set(v, op, a, DecText(v))
      [] op = "hex" -> Set(v, op, a, Hex(Bytes(v)))
      [] op = "pad" -> Set(v, op, a, PaddedHex(Bytes(v)))
      [] OTHER -> FALSE
Obs == [i \in 1..N |-> v[(N + 1) - i]]
Next == \/ ret.op = "init" /\ \E x \in MCVals : Do("load", <<0, x>>)
        \/ ret.op = "load" /\ \E x \in MCVals : Do("cmp", <<x>>)
        \/ ret.op = "load" /\ \E n \in MCShifts : Do("shl", <<n>>)
Spec == Init /\ [][Next]_vars
(* -- the definitions' own soundness: arithmetic laws on the instance's values -- *)
Is16(x) == Len(x) = N /\ \A i \in 1..N : x[i] \in 0..255
Other == Bytes(ret.a[1])
Laws == ret.op = "cmp" =>
    \A w \in {Other} : \A s \in {AddMod(v, w, N)} : \A d \in {SubMod(v, w, N)} :
        /\ Is16(s) /\ Is16(d)
        /\ SubMod(s, w, N) = v /\ AddMod(d, w, N) = v /\ AddMod(w, v, N) = s
        /\ AddMod(d, SubMod(w, v, N), N) = Zero
        (* the sum wraps exactly when it is below either operand; the difference exactly when the register is below the argument *)
        /\ (Norm(AddN(v, w)) # Norm(s)) = (Cmp(s, v) < 0) /\ (Cmp(s, v) < 0) = (Cmp(s, w) < 0)
        /\ (Cmp(v, w) < 0) = (Norm(AddN(d, w)) # Norm(v)) /\ (Cmp(v, w) = 0) = (v = w) /\ Cmp(v, w) = 0 - Cmp(w, v)
RECURSIVE Doubled(_, _)
Doubled(x, n) == IF n = 0 THEN x ELSE Doubled(AddMod(x, x, N), n - 1)
RECURSIVE Halved(_, _)
Halved(x, n) == IF n = 0 THEN x ELSE Halved(Cut(DivMod(x, 2)[1], N), n - 1)
Shifts == ret.op = "load" => \A n \in MCShifts : Is16(Shl(v, n)) /\ Shl(v, n) = Doubled(v, n) /\ Shr(v, n) = Halved(v, n)
(* the texts denote the value and are the shortest such *)
Horner(t, base) == FoldLeft(LAMBDA acc, c : Cut(AddN(MulN(acc, Num(base)), Num(IF c < 58 THEN c - 48 ELSE c - 87)), N), Zero, t)
Texts == ret.op = "load" => \A t \in {DecText(v)} : \A h \in {Hex(Bytes(v))} : \A p \in {PaddedHex(Bytes(v))} :
    /\ Horner(t, 10) = v /\ Horner(h, 16) = v /\ Horner(p, 16) = v
    /\ (t[1] # 48 \/ Len(t) = 1) /\ (h[1] # 48 \/ Len(h) = 1) /\ Len(p) = 32 /\ Len(t) <= 39 /\ Bytes(Bytes(v)) = v
====
