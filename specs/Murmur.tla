---- MODULE Murmur ----
(* MurmurHash3, as published: the 32-bit function and the 128-bit function for 64-bit
   words, over sequences of bytes.  Words are sequences of base-256 digits, least
   significant first (Nat256). *)
EXTENDS Nat256, Bitwise, TLC, Json
CONSTANTS MCByte, MCMax, MCSeeds
VARIABLES last, ret
vars == <<last, ret>>
Init == last = <<>> /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == last' = <<>> /\ ret' = [op |-> "reset", a |-> <<>>, r |-> <<>>]
XorV(x, y) == [i \in 1..Len(x) |-> x[i] ^^ D(y, i)]
XorW(a, b) == The({XorV(x, y) : x \in {a}, y \in {b}})
Pow2(n) == <<1, 2, 4, 8, 16, 32, 64, 128>>[n + 1]
(* n bits to the left, around; and to the right *)
RotlV(x, n, w) == LET q == n \div 8 k == n % 8 at(i) == x[((i - 1) % w) + 1] IN
    [i \in 1..w |-> ((at((i - q) + w) * Pow2(k)) % 256) + (IF k = 0 THEN 0 ELSE at(((i - q) - 1) + w) \div Pow2(8 - k))]
Rotl(a, n) == The({RotlV(x, n, Len(x)) : x \in {a}})
ShrV(x, n) == LET q == n \div 8 k == n % 8 IN
    [i \in 1..Len(x) |-> (D(x, i + q) \div Pow2(k)) + (IF k = 0 THEN 0 ELSE (D(x, (i + q) + 1) * Pow2(8 - k)) % 256)]
XorShr(a, n) == The({XorV(x, ShrV(x, n)) : x \in {a}})
Mul(a, b) == The({MulMod(x, b, Len(x)) : x \in {a}})
Add(a, b) == The({AddMod(x, b, Len(x)) : x \in {a}})
(* constants, least significant byte first *)
C1 == <<81, 45, 158, 204>>              \* cc9e2d51
C2 == <<147, 53, 135, 27>>              \* 1b873593
N5 == <<100, 107, 84, 230>>             \* e6546b64
M1 == <<107, 202, 235, 133>>            \* 85ebca6b
M2 == <<53, 174, 178, 194>>             \* c2b2ae35
Five == <<5>>
Fmix32(h) == XorShr(Mul(XorShr(Mul(XorShr(h, 16), M1), 13), M2), 16)
K32(k) == Mul(Rotl(Mul(k, C1), 15), C2)
Block(d, i, n) == SubSeq(d, (n * (i - 1)) + 1, n * i)
Blocks(d, n) == [i \in 1..(Len(d) \div n) |-> Block(d, i, n)]
Rest(d, n) == SubSeq(d, (n * (Len(d) \div n)) + 1, Len(d))
Body32(h, d) == FoldLeft(LAMBDA acc, k : Add(Mul(Rotl(XorW(acc, K32(k)), 13), Five), N5), h, Blocks(d, 4))
Tail32(h, t) == IF t = <<>> THEN h ELSE XorW(h, K32(Cut(t, 4)))
Hash32(seed, d) == Fmix32(XorW(Tail32(Body32(seed, d), Rest(d, 4)), Num(Len(d))))
D1 == <<213, 83, 66, 17, 145, 123, 195, 135>>       \* 87c37b91114253d5
D2 == <<127, 147, 69, 39, 67, 173, 245, 76>>        \* 4cf5ad432745937f
N1 == <<41, 231, 220, 82>>                          \* 52dce729
N2 == <<181, 90, 73, 56>>                           \* 38495ab5
F1 == <<205, 140, 85, 237, 215, 175, 81, 255>>      \* ff51afd7ed558ccd
F2 == <<83, 236, 133, 26, 254, 185, 206, 196>>      \* c4ceb9fe1a85ec53
Fmix64(h) == XorShr(Mul(XorShr(Mul(XorShr(h, 33), F1), 33), F2), 33)
KA(k) == Mul(Rotl(Mul(k, D1), 31), D2)
KB(k) == Mul(Rotl(Mul(k, D2), 33), D1)
Mix128(h, k) == The({<<g, Add(Mul(Add(Rotl(XorW(h[2], KB(SubSeq(k, 9, 16))), 31), g), Five), N2)>>
                     : g \in {Add(Mul(Add(Rotl(XorW(h[1], KA(SubSeq(k, 1, 8))), 27), h[2]), Five), N1)}})
Body128(h, d) == FoldLeft(LAMBDA acc, k : Mix128(acc, k), h, Blocks(d, 16))
Tail128(h, t) == <<IF Len(t) > 0 THEN XorW(h[1], KA(Cut(SubSeq(t, 1, IF Len(t) < 8 THEN Len(t) ELSE 8), 8))) ELSE h[1],
                   IF Len(t) > 8 THEN XorW(h[2], KB(Cut(SubSeq(t, 9, Len(t)), 8))) ELSE h[2]>>
Sums(h) == The({<<x, Add(h[2], x)>> : x \in {Add(h[1], h[2])}})
Final128(h, n) == Sums(The({<<Fmix64(g[1]), Fmix64(g[2])>> : g \in {Sums(<<XorW(h[1], Num(n)), XorW(h[2], Num(n))>>)}}))
Hash128(s1, s2, d) == Final128(The({Tail128(h, Rest(d, 16)) : h \in {Body128(<<s1, s2>>, d)}}), Len(d))
(* the 128-bit function for 32-bit words: four lanes *)
E1 == <<27, 150, 155, 35>>            \* 239b961b
E2 == <<137, 151, 14, 171>>            \* ab0e9789
E3 == <<229, 74, 179, 56>>            \* 38b34ae5
E4 == <<147, 139, 227, 161>>            \* a1e38b93
KX(k, m, n, o) == Mul(Rotl(Mul(k, m), n), o)
K1(k) == KX(k, E1, 15, E2)
K2(k) == KX(k, E2, 16, E3)
K3(k) == KX(k, E3, 17, E4)
K4(k) == KX(k, E4, 18, E1)
Lane(h, k, rot, next, c) == Add(Mul(Add(Rotl(XorW(h, k), rot), next), Five), c)
MixX(h, k) == The({The({The({<<a, b, c, Lane(h[4], K4(SubSeq(k, 13, 16)), 13, a, <<23, 59, 172, 50>>)>>
    : c \in {Lane(h[3], K3(SubSeq(k, 9, 12)), 15, h[4], <<53, 28, 205, 150>>)}}) : b \in {Lane(h[2], K2(SubSeq(k, 5, 8)), 17, h[3], <<71, 167, 202, 11>>)}})
    : a \in {Lane(h[1], K1(SubSeq(k, 1, 4)), 19, h[2], <<27, 205, 28, 86>>)}})
Part(t, i) == SubSeq(t, (4 * (i - 1)) + 1, IF Len(t) < 4 * i THEN Len(t) ELSE 4 * i)
Has(t, i) == Len(t) > 4 * (i - 1)
TailX(h, t) == <<IF Has(t, 1) THEN XorW(h[1], K1(Cut(Part(t, 1), 4))) ELSE h[1], IF Has(t, 2) THEN XorW(h[2], K2(Cut(Part(t, 2), 4))) ELSE h[2],
                 IF Has(t, 3) THEN XorW(h[3], K3(Cut(Part(t, 3), 4))) ELSE h[3], IF Has(t, 4) THEN XorW(h[4], K4(Cut(Part(t, 4), 4))) ELSE h[4]>>
SumsX(h) == The({<<x, Add(h[2], x), Add(h[3], x), Add(h[4], x)>> : x \in {Add(Add(Add(h[1], h[2]), h[3]), h[4])}})
FinalX(h, n) == SumsX(The({<<Fmix32(g[1]), Fmix32(g[2]), Fmix32(g[3]), Fmix32(g[4])>>
    : g \in {SumsX(<<XorW(h[1], Num(n)), XorW(h[2], Num(n)), XorW(h[3], Num(n)), XorW(h[4], Num(n))>>)}}))
HashX(h, d) == FinalX(The({TailX(g, Rest(d, 16)) : g \in {FoldLeft(LAMBDA acc, k : MixX(acc, k), h, Blocks(d, 16))}}), Len(d))
(* -- what is observed -- *)
Be(x) == The({Reverse(y) : y \in {x}})
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
HexText(be) == FoldLeft(LAMBDA s, x : s \o <<HexDigit(x \div 16), HexDigit(x % 16)>>, <<>>, be)
Zero(n) == [i \in 1..n |-> 0]
Stable(seed, d) == Be(Hash32(Be(seed), d))
Big(seed, d) == The({Be(h[1]) \o Be(h[2]) : h \in {Hash128(Be(SubSeq(seed, 1, 8)), Be(SubSeq(seed, 9, 16)), d)}})
BigX(seed, d) == The({Be(h[1]) \o Be(h[2]) \o Be(h[3]) \o Be(h[4]) : h \in {HashX([i \in 1..4 |-> Be(SubSeq(seed, (4 * (i - 1)) + 1, 4 * i))], d)}})
Tool(big, s) == IF big = 1 THEN HexText(Big(Zero(16), s)) \o <<10>> ELSE <<48, 120>> \o HexText(Stable(Zero(4), s)) \o <<10>>
Saw(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r] /\ UNCHANGED last
(* seeds and hashes are bytes, the most significant first; the arguments after the data only say
   where the data lie in memory and what surrounds them *)
Do(op, a) ==
    CASE op = "stable" -> Saw(op, a, Stable(a[1], a[2]))
      [] op = "big" -> Saw(op, a, Big(a[1], a[2]))
      (* the header's macros for each published variant: on this host the same functions, and the one for 32-bit words *)
      [] op = "macros" -> Saw(op, a, <<Stable(SubSeq(a[1], 13, 16), a[2]), BigX(a[1], a[2]), Big(a[1], a[2])>>)
      (* hashing in pieces: each hash is the next one's seed *)
      [] op = "chain" -> Saw(op, a, FoldLeft(LAMBDA h, d : Stable(h, d), a[1], a[2]))
      [] op = "bigchain" -> Saw(op, a, FoldLeft(LAMBDA h, d : Big(h, d), a[1], a[2]))
      (* a variable of n bytes, whose memory is the data: by the stable, the big and the fast function *)
      [] op = "var" -> Saw(op, a, <<Stable(a[1], a[2]), Big(Zero(12) \o a[1], a[2]), 1>>)
      (* the fast function says the same wherever the data lie *)
      [] op = "fast" -> Saw(op, a, 1)
      (* equality of big hashes, of strings', pointers' and buffers' hashes where the values are equal *)
      [] op = "equal" -> Saw(op, a, IF a[1] = a[2] THEN 1 ELSE 0)
      [] op = "values" -> Saw(op, a, 1)
      (* the command-line tool: exit status and what it prints *)
      [] op = "tool" -> Saw(op, a, IF a[1] = "usage" THEN <<1, <<>>>> ELSE IF a[1] = "fast" THEN <<0, <<1>>>> ELSE <<0, Tool(IF a[1] = "big" THEN 1 ELSE 0, a[2])>>)
      [] OTHER -> FALSE
Obs == 0
Texts == UNION {[1..n -> MCByte] : n \in 0..MCMax}
Next == ret.op = "init" /\ \E s \in MCSeeds, d \in Texts : Do("stable", <<s, d>>)
Spec == Init /\ [][Next]_vars
(* -- soundness of the definitions -- *)
Word(r) == Len(r) = 4 /\ \A i \in 1..4 : r[i] \in 0..255
Shape == ret.op = "stable" => Word(ret.r)
(* finalisation is a bijection and distinct inputs of the same length below a block hash apart: the multiplications are by odd numbers *)
Apart == ret.op = "stable" /\ Len(ret.a[2]) <= 2 => \A d \in [1..Len(ret.a[2]) -> MCByte] : d # ret.a[2] => Stable(ret.a[1], d) # ret.r
(* published values: the empty text under seeds 0, 1 and ffffffff; "\xff\xff\xff\xff"; "!Ce\x87" and its prefixes under 0; "!Ce\x87" under 5082edee *)
Known == /\ Stable(Zero(4), <<>>) = Zero(4)
         /\ Stable(<<0, 0, 0, 1>>, <<>>) = <<81, 78, 40, 183>>
         /\ Stable(<<255, 255, 255, 255>>, <<>>) = <<129, 241, 111, 57>>
         /\ Stable(Zero(4), <<255, 255, 255, 255>>) = <<118, 41, 59, 80>>
         /\ Stable(Zero(4), <<33, 67, 101, 135>>) = <<245, 91, 81, 107>>
         /\ Stable(<<80, 130, 237, 238>>, <<33, 67, 101, 135>>) = <<35, 98, 249, 222>>
         /\ Stable(Zero(4), <<33, 67, 101>>) = <<126, 74, 134, 52>>
         /\ Stable(Zero(4), <<33, 67>>) = <<160, 247, 176, 122>>
         /\ Stable(Zero(4), <<33>>) = <<114, 102, 28, 244>>
         /\ Stable(Zero(4), Zero(4)) = <<35, 98, 249, 222>>
ASSUME Known
(* "hello" under seed 0: cbd8a7b341bd9b025b1e906a48ae1d19 *)
ASSUME Big(Zero(16), <<104, 101, 108, 108, 111>>) = <<203, 216, 167, 179, 65, 189, 155, 2, 91, 30, 144, 106, 72, 174, 29, 25>>
ASSUME Big(Zero(16), <<>>) = Zero(16) /\ BigX(Zero(16), <<>>) = Zero(16)
====
