---- MODULE ByteOrder ----
(* Integers of 16, 32 and 64 bits and their images in memory: a register holding a
   value as its bytes, the most significant first, and the memory image of an
   integer, a sequence of bytes by address.  Host is "little" or "big". *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS Host, MCBytes
VARIABLES v, ret
vars == <<v, ret>>
Init == v = <<0, 0>> /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == v' = <<0, 0>> /\ ret' = [op |-> "reset", a |-> <<>>, r |-> <<>>]
(* how the host, and how each byte order, lays a value out *)
Image(order, x) == IF order = "big" THEN x ELSE Reverse(x)
Value(order, m) == Image(order, m)                     \* its own inverse
(* what the conversion macros return: the integer the host would read from such an image, and so on *)
FromOrder(order, x) == Value(order, Image(Host, x))
ToOrder(order, x) == Value(Host, Image(order, x))
Set(x, op, a, r) == v' = x /\ ret' = [op |-> op, a |-> a, r |-> r]
(* the arguments that only say how the operation is written (macro, in place or not; form of the expression) come last *)
Do(op, a) ==
    CASE op = "load" -> Set(a[1], op, a, a[1])
      [] op = "swap" -> Set(Reverse(v), op, a, Reverse(v))
      (* an integer read from an image in the given order, then converted to the host's *)
      [] op = "from" -> LET x == Value(a[1], a[2]) IN Set(x, op, a, x)
      (* the image of the register's value, converted to the given order *)
      [] op = "image" -> Set(v, op, a, Image(a[1], v))
      [] op = "to" -> LET x == ToOrder(a[1], v) IN Set(x, op, a, x)
      [] op = "back" -> LET x == FromOrder(a[1], v) IN Set(x, op, a, x)
      [] op = "names" -> Set(v, op, a, Host)
      [] OTHER -> FALSE
Obs == v
Words == UNION {[1..n -> MCBytes] : n \in {2, 4}}
Next == \/ ret.op = "init" /\ \E x \in Words : Do("load", <<x>>)
        \/ ret.op # "init" /\ \E o \in {"big", "little"} : Do("to", <<o>>) \/ Do("back", <<o>>) \/ Do("image", <<o>>) \/ Do("from", <<o, v>>)
        \/ ret.op # "init" /\ Do("swap", <<>>)
Spec == Init /\ [][Next]_vars
View == v
(* converting there and back changes nothing; the host's own order changes nothing; the other one swaps; two images of a value are each other's reverse *)
Laws == \A o \in {"big", "little"} : FromOrder(o, ToOrder(o, v)) = v /\ ToOrder(o, v) = FromOrder(o, v)
                                     /\ (o = Host => ToOrder(o, v) = v) /\ (o # Host => ToOrder(o, v) = Reverse(v))
                                     /\ Value(o, Image(o, v)) = v /\ Image(Host, ToOrder(o, v)) = Image(o, v)
====
