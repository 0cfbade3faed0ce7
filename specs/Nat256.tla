---- MODULE Nat256 ----
(* Natural numbers of any size as sequences of base-256 digits, the least
   significant first (TLC's own integers end at 2^31 - 1).
   The(S) of a one-element set: binding an argument as the element of a set makes
   TLC evaluate it just once. *)
EXTENDS Integers, Sequences, SequencesExt, Functions
The(S) == CHOOSE x \in S : TRUE
D(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
(* n least significant digits of an integer *)
RECURSIVE NumW(_, _)
NumW(v, n) == IF n = 0 THEN <<>> ELSE <<v % 256>> \o NumW(v \div 256, n - 1)
Num(v) == NumW(v, 4)
Cut(a, n) == The({[i \in 1..n |-> D(v, i)] : v \in {a}})           \* modulo 256^n, or zero-extended
Shr8(a, n) == IF n >= Len(a) THEN <<>> ELSE SubSeq(a, n + 1, Len(a))
Shl8(a, n) == [i \in 1..n |-> 0] \o a
NormV(v) == LET nz == {i \in 1..Len(v) : v[i] # 0} IN IF nz = {} THEN <<>> ELSE SubSeq(v, 1, CHOOSE i \in nz : \A j \in nz : j <= i)
Norm(a) == The({NormV(v) : v \in {a}})
Max2(x, y) == IF x > y THEN x ELSE y
(* carry a sequence of (possibly negative or large) digits; what is carried out of the last one is dropped *)
Carry(a) == FoldLeft(LAMBDA acc, x : <<Append(acc[1], (x + acc[2]) % 256), (x + acc[2]) \div 256>>, <<<<>>, 0>>, a)[1]
AddN(a, b) == The({The({Carry([i \in 1..n |-> D(v, i) + D(w, i)]) : n \in {Max2(Len(v), Len(w)) + 1}}) : v \in {a}, w \in {b}})
(* modulo 256^n *)
AddMod(a, b, n) == Cut(AddN(a, b), n)
SubMod(a, b, n) == The({Carry([i \in 1..n |-> D(v, i) - D(w, i)]) : v \in {a}, w \in {b}})
Col(v, w, k) == FoldLeft(LAMBDA s, i : IF k - i + 1 \in 1..Len(w) THEN s + (v[i] * w[k - i + 1]) ELSE s, 0, [i \in 1..Len(v) |-> i])
MulMod(a, b, n) == The({Carry([k \in 1..n |-> Col(v, w, k)]) : v \in {a}, w \in {b}})
MulN(a, b) == MulMod(a, b, Len(a) + Len(b))
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF D(a, i) # D(b, i) THEN (IF D(a, i) < D(b, i) THEN -1 ELSE 1) ELSE CmpAt(a, b, i - 1)
Cmp(a, b) == The({CmpAt(v, w, Max2(Len(v), Len(w))) : v \in {a}, w \in {b}})
Leq(a, b) == Cmp(a, b) <= 0
(* quotient and remainder by a small number (below 2^23): <<quotient, remainder>> *)
DivMod(a, d) == FoldLeft(LAMBDA acc, x : <<<<((acc[2] * 256) + x) \div d>> \o acc[1], ((acc[2] * 256) + x) % d>>, <<<<>>, 0>>, Reverse(a))
RECURSIVE Val(_)
Val(a) == IF a = <<>> THEN 0 ELSE a[1] + 256 * Val(Tail(a))     \* only below 2^31
(* decimal digits as character codes; no leading zeros *)
Tenth(acc) == IF acc[1] = <<>> THEN acc ELSE The({<<Norm(q[1]), <<48 + q[2]>> \o acc[2]>> : q \in {DivMod(acc[1], 10)}})
DecText(a) == The({IF t = <<>> THEN <<48>> ELSE t : t \in {FoldLeft(LAMBDA acc, x : Tenth(acc), <<Norm(a), <<>>>>, [i \in 1..(3 * Len(a)) |-> i])[2]}})
PadZeros(t, w) == The({IF Len(v) >= w THEN v ELSE [i \in 1..(w - Len(v)) |-> 48] \o v : v \in {t}})
====
