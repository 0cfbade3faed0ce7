---- MODULE Streams ----
(* Producers read a source and hand its bytes to a consumer; consumers write
   the bytes they are handed to a sink.  Data is described by its offset in the
   stream and its length.  Every event is one crossing of the library's border:
   a call it makes to the operating system (with the system's answer), a call
   it makes to the consumer (with its answer), or a return to its caller.

   Kinds: 0 descriptor, 1 FILE, 2 path, 3 buffer, 4 buffered FILE. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MCKinds, MCLen, MCFlags
VARIABLES s, ret
vars == <<s, ret>>
EINTR == 4
(* job: none, produce, make, consume, send, end, free; got: bytes read (or handed over); out: bytes delivered
   (or written); ateof: the source has ended; code: what must be reported; fd: none, open, closed *)
Zero == [job |-> "none", kind |-> 0, flags |-> 0, got |-> 0, out |-> 0, ateof |-> 0, told |-> 0, code |-> 0, fd |-> "none"]
Init == s = Zero /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Out(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
Reset == s' = Zero /\ Out("reset", <<>>, <<>>)
(* ---- producers *)
Consume(kind) == s.job = "none" /\ s' = [s EXCEPT !.job = "produce", !.kind = kind, !.fd = IF kind = 2 THEN "none" ELSE "lent"] /\ Out("consume", <<kind>>, <<>>)
(* flags: those the caller gave; an interrupted open is tried again *)
Open(flags, err) ==
    /\ s.job \in {"produce", "make"} /\ s.kind = 2 /\ s.fd = "none" /\ s.code = 0 /\ flags = s.flags
    /\ s' = IF err = 0 THEN [s EXCEPT !.fd = "open"] ELSE IF err = EINTR THEN s ELSE [s EXCEPT !.code = err]
    /\ Out("open", <<flags, err>>, <<>>)
Usable == s.fd \in {"lent", "open"}
(* n > 0: n bytes, from offset x; 0: the end; -1: error x.  Nothing is read once
   the consumer has failed, and a descriptor not even after an error. *)
Read(n, x) ==
    /\ s.job = "produce" /\ Usable /\ s.told = 0
    /\ s.kind = 1 \/ s.code = 0
    /\ CASE n > 0 -> x = s.got /\ s' = [s EXCEPT !.got = @ + n]
         [] n = 0 -> s' = [s EXCEPT !.ateof = 1]
         [] OTHER -> s' = IF x = EINTR THEN s ELSE [s EXCEPT !.code = x]
    /\ Out("read", <<n, x>>, <<>>)
(* data reaches the consumer in order, without gaps, as read; only the first chunk is first *)
Data(off, n, first, ans) ==
    /\ s.job = "produce" /\ Usable /\ s.told = 0
    /\ n > 0 /\ off = s.out /\ off + n <= s.got
    /\ first = (IF s.out = 0 THEN 1 ELSE 0)
    /\ s' = [s EXCEPT !.out = @ + n, !.told = IF ans # 0 THEN 2 ELSE 0, !.code = IF ans # 0 THEN 777 ELSE @]
    /\ Out("data", <<off, n, first, ans>>, <<>>)
Eof(ans) ==
    /\ s.job = "produce" /\ Usable /\ s.told = 0 /\ s.code = 0 /\ s.ateof = 1 /\ s.out = s.got
    /\ s' = [s EXCEPT !.told = IF ans # 0 THEN 2 ELSE 1, !.code = IF ans # 0 THEN 778 ELSE 0]
    /\ Out("eof", <<ans>>, <<>>)
(* a file opened by path is closed once it is finished with, and only such a file *)
Close(err) ==
    /\ s.kind = 2 /\ s.fd = "open"
    /\ \/ s.job = "produce" /\ (s.told > 0 \/ (s.code # 0 /\ s.out = s.got))
       \/ s.job \in {"end", "free"}
    /\ s' = [s EXCEPT !.fd = "closed", !.code = IF err # 0 /\ s.job # "free" THEN err ELSE @]
    /\ Out("close", <<err>>, <<>>)
Return ==
    /\ s.job = "produce"
    /\ s.told > 0 \/ (s.code # 0 /\ s.out = s.got)           \* told 1: ended; 2: the consumer failed; else a source error
    /\ s.fd # "open"
    /\ s' = Zero
    /\ Out("return", <<>>, <<IF s.code = 0 THEN 0 ELSE 1, s.code, 0>>)
(* ---- consumers *)
New(kind, flags) == s.job = "none" /\ s' = [s EXCEPT !.job = "make", !.kind = kind, !.flags = flags, !.fd = IF kind = 2 THEN "none" ELSE "lent"] /\ Out("new", <<kind, flags>>, <<>>)
Made == /\ s.job = "make" /\ (s.kind = 2 => s.fd = "open" \/ s.code # 0)
        /\ s' = [s EXCEPT !.job = IF s.code # 0 THEN "over" ELSE "consume"]
        /\ Out("made", <<>>, <<IF s.code = 0 THEN 0 ELSE 1, s.code>>)
Send(off, n) == s.job = "consume" /\ s.code = 0 /\ off = s.got /\ s' = [s EXCEPT !.job = "send", !.got = @ + n] /\ Out("send", <<off, n>>, <<>>)
(* the library asks for bytes [off, off+n) to be written; k are, or -1: error x *)
Write(off, n, k, x) ==
    /\ s.job \in {"send"} \cup (IF s.kind = 4 THEN {"consume", "end", "free"} ELSE {}) /\ s.code = 0 /\ Usable
    /\ off = s.out /\ off + n <= s.got /\ k <= n
    /\ s' = CASE k >= 0 -> [s EXCEPT !.out = @ + k]
              [] k < 0 /\ x = EINTR /\ s.kind = 0 -> s
              [] k < 0 /\ x = EINTR /\ s.kind = 2 -> s
              [] OTHER -> [s EXCEPT !.code = x]
    /\ Out("write", <<off, n, k, x>>, <<>>)
Sent == /\ s.job = "send" /\ (s.code = 0 /\ s.kind # 4 => s.out = s.got)
        /\ s' = [s EXCEPT !.job = "consume"] /\ Out("sent", <<>>, <<IF s.code = 0 THEN 0 ELSE 1, s.code>>)
End == s.job = "consume" /\ s' = [s EXCEPT !.job = "end", !.code = 0] /\ Out("end", <<>>, <<>>)
Ended == s.job = "end" /\ s' = [s EXCEPT !.job = "consume"] /\ Out("ended", <<>>, <<IF s.code = 0 THEN 0 ELSE 1, s.code>>)
Free == s.job = "consume" /\ s' = [s EXCEPT !.job = "free", !.code = 0] /\ Out("free", <<>>, <<>>)
(* flushing delivers everything, unless the flush itself failed *)
Sync == s.job = "free" /\ (s.out = s.got \/ s.code # 0) /\ s' = s /\ Out("sync", <<>>, <<>>)
Over == s.job \in {"free", "over"} /\ s.fd # "open" /\ s' = Zero /\ Out("over", <<>>, <<0>>)
Do(op, a) ==
    CASE op = "consume" -> Consume(a[1]) [] op = "open" -> Open(a[1], a[2]) [] op = "read" -> Read(a[1], a[2])
      [] op = "data" -> Data(a[1], a[2], a[3], a[4]) [] op = "eof" -> Eof(a[1]) [] op = "close" -> Close(a[1]) [] op = "return" -> Return
      [] op = "new" -> New(a[1], a[2]) [] op = "made" -> Made [] op = "send" -> Send(a[1], a[2]) [] op = "write" -> Write(a[1], a[2], a[3], a[4])
      [] op = "sent" -> Sent [] op = "end" -> End [] op = "ended" -> Ended [] op = "free" -> Free [] op = "sync" -> Sync [] op = "over" -> Over
      [] OTHER -> FALSE
Obs == <<>>
Errs == {0, EINTR, 5}
Next == \/ \E k \in MCKinds : (k \in 0..2 /\ Consume(k)) \/ New(k, MCFlags)
        \/ \E e \in Errs : Open(s.flags, e) \/ Close(e)
        \/ \E n \in 1..MCLen : s.got + n <= MCLen /\ (Read(n, s.got) \/ Send(s.got, n))
        \/ Read(0, 0) \/ Read(-1, EINTR) \/ Read(-1, 5)
        \/ \E n \in 1..MCLen, f \in {0, 1}, ans \in {0, -1} : Data(s.out, n, f, ans)
        \/ \E ans \in {0, -1} : Eof(ans)
        \/ \E n \in 1..MCLen, k \in 0..MCLen : Write(s.out, n, k, 0) \/ Write(s.out, n, -1, EINTR) \/ Write(s.out, n, -1, 5)
        \/ Return \/ Made \/ Sent \/ End \/ Ended \/ Free \/ Sync \/ Over
Spec == Init /\ [][Next]_vars
View == s
Order == s.out <= s.got
(* a producer reports success only after all bytes and one end-of-stream *)
Complete == [][(ret'.op = "return" /\ ret'.r[1] = 0) => (s.told = 1 /\ s.ateof = 1 /\ s.out = s.got)]_vars
EofOnce == [][(ret'.op = "eof") => s.told = 0]_vars
Nothing == [][(ret'.op \in {"data", "eof"}) => s.told = 0]_vars
AllWritten == [][(ret'.op = "sent" /\ ret'.r[1] = 0 /\ s.kind # 4) => s.out = s.got]_vars
LentStay == [][(s.fd = "lent") => s'.fd \in {"lent", "none"}]_vars
ClosedOnce == [][(ret'.op = "close") => (s.fd = "open" /\ s'.fd = "closed")]_vars
NoneLeft == [][(ret'.op \in {"return", "over"}) => s.fd # "open"]_vars
====
