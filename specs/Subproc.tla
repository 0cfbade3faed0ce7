---- MODULE Subproc ----
(* Subprocesses as seen from both sides.  One event per border crossing: what a
   child is about to do (w: write, c: close a stream, x: exit), what it has done
   (wd: a write finished, rd: a read of its stdin), what the parent asks for
   (start, drain, wait, fin, abort, send, end), what the consumers are told
   (data, eof) and what the parent is answered (ret).  Events are totally
   ordered by a counter in shared memory.  Bytes are described by their offset
   in the stream they belong to.  Kid 0 means the whole group. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MCKids, MCLen, MCCodes
VARIABLES s, ret
vars == <<s, ret>>
Unset == -99
AnyFailure == -2                 \* the program cannot be executed: some non-zero code (as for a body that returns -1)
NoKid == [has |-> <<0, 0>>, hc |-> 0, code |-> 0, st |-> "none", w |-> <<0, 0>>, wd |-> <<0, 0>>, got |-> <<0, 0>>, eof |-> <<0, 0>>,
          need |-> <<0, 0>>, closed |-> <<0, 0>>, cin |-> 0, sent |-> 0, rd |-> 0, ended |-> 0, cell |-> Unset, waited |-> 0, left |-> 0]
Zero == [kid |-> <<>>, job |-> "", i |-> 0, prog |-> 0, fail |-> 0, fault |-> 0]
Init == s = Zero /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Out(op, a, r) == ret' = [op |-> op, a |-> a, r |-> r]
Reset == s' = Zero /\ Out("reset", <<>>, <<>>)
Kids == DOMAIN s.kid
Cov(i) == IF i = 0 THEN Kids ELSE {i}
Idle == s.job = ""
Gone(k) == s.kid[k].st \in {"exit", "dead"}
Up(k) == s.kid[k].st = "run"
(* finished: never started, or ended with everything attached delivered *)
Done(k) == \/ s.kid[k].st \in {"none", "never"}
           \/ (Gone(k) \/ s.kid[k].left = 1) /\ \A t \in {1, 2} : s.kid[k].has[t] = 1 => s.kid[k].eof[t] = 1
New(i, ho, he, hc, code) ==
    /\ Idle /\ i = Len(s.kid) + 1
    /\ s' = [s EXCEPT !.kid = Append(@, [NoKid EXCEPT !.has = <<ho, he>>, !.hc = hc, !.code = code])]
    /\ Out("new", <<i, ho, he, hc, code>>, <<>>)
(* ---- the children *)
W(i, t, off, n) == Up(i) /\ off = s.kid[i].w[t] /\ s.kid[i].closed[t] = 0 /\ s' = [s EXCEPT !.kid[i].w[t] = @ + n] /\ Out("w", <<i, t, off, n>>, <<>>)
WD(i, t) == Up(i) /\ s' = [s EXCEPT !.kid[i].wd[t] = s.kid[i].w[t]] /\ Out("wd", <<i, t>>, <<>>)
C(i, t) == Up(i) /\ s' = (IF t = 0 THEN [s EXCEPT !.kid[i].cin = 1] ELSE [s EXCEPT !.kid[i].closed[t] = 1]) /\ Out("c", <<i, t>>, <<>>)
CD(i) == Up(i) /\ s.kid[i].cin = 1 /\ s' = [s EXCEPT !.kid[i].cin = 2] /\ Out("cd", <<i>>, <<>>)
(* the process itself exits while one that it has started goes on using the streams *)
LV(i) == Up(i) /\ s.kid[i].left = 0 /\ s' = [s EXCEPT !.kid[i].left = 1] /\ Out("lv", <<i>>, <<>>)
X(i) == Up(i) /\ s' = [s EXCEPT !.kid[i].st = "exit"] /\ Out("x", <<i>>, <<>>)
(* stdin arrives exactly and in order; it ends only once the parent has ended it and all has been read *)
RD(i, off, n) ==
    /\ Up(i) /\ off = s.kid[i].rd
    /\ IF n = 0 THEN s.kid[i].ended = 1 /\ off = s.kid[i].sent ELSE off + n <= s.kid[i].sent
    /\ s' = [s EXCEPT !.kid[i].rd = @ + n]
    /\ Out("rd", <<i, off, n>>, <<>>)
(* ---- the parent asks *)
Call(job, i) ==
    /\ Idle /\ \A k \in Cov(i) : k \in Kids
    /\ s' = [s EXCEPT !.job = job, !.i = i, !.prog = 0, !.fault = 0,
                      !.kid = [k \in Kids |-> IF k \notin Cov(i) THEN s.kid[k]
                               ELSE IF job = "start" THEN [s.kid[k] EXCEPT !.st = IF s.kid[k].code = AnyFailure THEN "exit" ELSE "run"]
                               ELSE [s.kid[k] EXCEPT !.need = s.kid[k].wd]]]
    /\ Out("call", <<job, i>>, <<>>)
Send(i, off, n) == Idle /\ s.kid[i].ended = 0 /\ off = s.kid[i].sent /\ s' = [s EXCEPT !.job = "send", !.i = i, !.prog = IF n > 0 THEN s.kid[i].cin ELSE 0, !.kid[i].sent = @ + n] /\ Out("send", <<i, off, n>>, <<>>)
End(i) == Idle /\ s' = [s EXCEPT !.job = "end", !.i = i, !.kid[i].ended = 1] /\ Out("end", <<i>>, <<>>)
(* the operating system refuses a pipe or a fork while starting kid k *)
Fault(k) == s.job = "start" /\ s.fault = 0 /\ k \in Cov(s.i) /\ s' = [s EXCEPT !.fault = k] /\ Out("fault", <<k>>, <<>>)
(* the operating system fails to read from a child *)
ReadFault == s.job \in {"drain", "wait"} /\ s.fail = 0 /\ s' = [s EXCEPT !.fail = 5] /\ Out("rfault", <<>>, <<>>)
(* ---- the consumers are told *)
Reading(i) == s.job \in {"drain", "wait"} /\ i \in Cov(s.i) /\ s.fail = 0
Data(i, t, off, n, first, ans) ==
    /\ Reading(i) /\ s.kid[i].has[t] = 1 /\ s.kid[i].eof[t] = 0
    /\ n > 0 /\ off = s.kid[i].got[t] /\ off + n <= s.kid[i].w[t]
    /\ first = (IF off = 0 THEN 1 ELSE 0)
    /\ s' = [s EXCEPT !.kid[i].got[t] = @ + n, !.prog = 1, !.fail = IF ans # 0 THEN 777 ELSE 0]
    /\ Out("data", <<i, t, off, n, first, ans>>, <<>>)
Eof(i, t, ans) ==
    /\ Reading(i) /\ s.kid[i].has[t] = 1 /\ s.kid[i].eof[t] = 0
    /\ \/ s.kid[i].st = "dead"
       \/ (s.kid[i].st = "exit" \/ s.kid[i].closed[t] = 1) /\ s.kid[i].got[t] = s.kid[i].w[t]
    /\ s' = [s EXCEPT !.kid[i].eof[t] = 1, !.prog = 1, !.fail = IF ans # 0 THEN 778 ELSE 0]
    /\ Out("eof", <<i, t, ans>>, <<>>)
(* ---- the parent is answered; cells are the exit-code destinations *)
CellOk(k, c, cov) ==
    \/ c = s.kid[k].cell
    \/ cov /\ s.kid[k].hc = 1 /\ s.kid[k].cell = Unset
       /\ \/ s.kid[k].st = "exit" /\ s.kid[k].code >= 0 /\ c = s.kid[k].code
          \/ s.kid[k].st = "run" /\ s.kid[k].left = 1 /\ s.kid[k].code >= 0 /\ c = s.kid[k].code
          \/ s.kid[k].st = "exit" /\ s.kid[k].code < 0 /\ c \in 1..255
          \/ s.kid[k].st \in {"exit", "run", "dead"} /\ s.job = "abort"
          \/ s.kid[k].st \in {"exit", "run", "dead"} /\ s.job \in {"wait", "drain"} /\ s.fail # 0
          \/ s.kid[k].st \in {"exit", "run", "dead"} /\ s.job = "start" /\ s.fault # 0
Known(k, c) == s.kid[k].hc = 1 /\ (s.kid[k].st = "exit" \/ (s.kid[k].left = 1 /\ s.kid[k].st = "run")) => c # Unset
Kill(kid) == [k \in Kids |-> IF k \in Cov(s.i) /\ kid[k].st \in {"run", "exit"} /\ kid[k].left = 0 THEN [kid[k] EXCEPT !.st = "dead"] ELSE kid[k]]
Ret(job, i, cells) ==
    /\ job = s.job /\ i = s.i /\ Len(cells) = Len(s.kid)
    /\ \A k \in Kids : CellOk(k, cells[k], k \in Cov(i))
    /\ LET kid0 == [k \in Kids |-> [s.kid[k] EXCEPT !.cell = cells[k]]]
           failed == s.fail # 0 \/ s.fault # 0
           changed == \E k \in Kids : cells[k] # s.kid[k].cell
           base == [s EXCEPT !.job = "", !.i = 0, !.prog = 0, !.fault = 0, !.kid = kid0]
           \* kids from the faulty one on were not started, the others are terminated
           stopped == [k \in Kids |-> IF k \notin Cov(i) THEN kid0[k] ELSE IF k < s.fault THEN [kid0[k] EXCEPT !.st = "dead"]
                                      ELSE [kid0[k] EXCEPT !.st = "never"]]
       IN CASE job = "start" -> IF s.fault # 0 THEN s' = [base EXCEPT !.kid = stopped] /\ Out("ret", <<job, i, cells>>, <<-1, 1, 0>>)
                                ELSE s' = base /\ Out("ret", <<job, i, cells>>, <<0, 0, 0>>)
            [] job = "wait" -> IF failed THEN s' = [base EXCEPT !.kid = Kill(kid0)] /\ Out("ret", <<job, i, cells>>, <<-1, s.fail, 0>>)
                               ELSE /\ \A k \in Cov(i) : Done(k) /\ Known(k, cells[k])
                                    /\ s' = [base EXCEPT !.kid = [k \in Kids |-> IF k \in Cov(i) THEN [kid0[k] EXCEPT !.waited = 1] ELSE kid0[k]]]
                                    /\ Out("ret", <<job, i, cells>>, <<0, 0, 0>>)
            [] job = "drain" -> IF failed THEN s' = [base EXCEPT !.kid = Kill(kid0)] /\ Out("ret", <<job, i, cells>>, <<0, s.fail, 0>>)
                                ELSE \* everything the children had written before the call has been delivered
                                     /\ \A k \in Cov(i), t \in {1, 2} : s.kid[k].has[t] = 1 => s.kid[k].got[t] >= s.kid[k].need[t]
                                     /\ s' = base
                                     /\ \/ (s.prog = 1 \/ changed \/ \E k \in Cov(i) : (Gone(k) \/ s.kid[k].left = 1) /\ s.kid[k].hc = 0 /\ s.kid[k].waited = 0)
                                           /\ Out("ret", <<job, i, cells>>, <<1, 0, 0>>)
                                        \/ s.prog = 0 /\ ~changed /\ Out("ret", <<job, i, cells>>, <<0, 0, 0>>)
            [] job = "abort" -> s' = [base EXCEPT !.kid = Kill(kid0)] /\ Out("ret", <<job, i, cells>>, <<0, 0, 0>>)
            [] job = "fin" -> /\ ~changed /\ s' = base
                              /\ \/ (\A k \in Cov(i) : Done(k) /\ Known(k, cells[k])) /\ Out("ret", <<job, i, cells>>, <<1, 0, 0>>)
                                 \/ (\E k \in Cov(i) : s.kid[k].waited = 0) /\ Out("ret", <<job, i, cells>>, <<0, 0, 0>>)
            [] job = "send" -> \* a child that has exited, or has closed its stdin, cannot be written to
                               ~changed /\ s' = base /\ \/ s.kid[i].waited = 0 /\ s.prog < 2 /\ Out("ret", <<job, i, cells>>, <<0, 0, 0>>)
                                                        \/ (Gone(i) \/ s.kid[i].cin > 0) /\ Out("ret", <<job, i, cells>>, <<-1, 1, 0>>)
            [] job = "end" -> ~changed /\ s' = base /\ Out("ret", <<job, i, cells>>, <<0, 0, 0>>)
            [] OTHER -> FALSE
(* a child without a consumer writes to the parent's own stream (n: bytes found there, -1: wrong ones) *)
Inherited(i, t, n) ==
    /\ Idle /\ s.kid[i].has[t] = 0
    /\ s.kid[i].code # AnyFailure => n >= 0 /\ n <= s.kid[i].w[t] /\ (s.kid[i].st = "exit" => n = s.kid[i].w[t])
    /\ s' = s /\ Out("inh", <<i, t, n>>, <<>>)
(* at the end: no descriptor, no child process, no memory left; what was attached is complete *)
Over == /\ Idle /\ \A k \in Kids : s.kid[k].st # "run"
        /\ s' = Zero /\ Out("over", <<>>, <<0, 0, 0>>)
Do(op, a) ==
    CASE op = "new" -> New(a[1], a[2], a[3], a[4], a[5]) [] op = "call" -> Call(a[1], a[2]) [] op = "ret" -> Ret(a[1], a[2], a[3])
      [] op = "w" -> W(a[1], a[2], a[3], a[4]) [] op = "wd" -> WD(a[1], a[2]) [] op = "c" -> C(a[1], a[2]) [] op = "cd" -> CD(a[1]) [] op = "rfault" -> ReadFault [] op = "x" -> X(a[1]) [] op = "lv" -> LV(a[1])
      [] op = "rd" -> RD(a[1], a[2], a[3]) [] op = "send" -> Send(a[1], a[2], a[3]) [] op = "end" -> End(a[1]) [] op = "fault" -> Fault(a[1])
      [] op = "data" -> Data(a[1], a[2], a[3], a[4], a[5], a[6]) [] op = "eof" -> Eof(a[1], a[2], a[3])
      [] op = "inh" -> Inherited(a[1], a[2], a[3]) [] op = "over" -> Over
      [] OTHER -> FALSE
Obs == <<>>
MCCells == [1..Len(s.kid) -> MCCodes \cup {Unset}]
Next == \/ Len(s.kid) < MCKids /\ \E hc \in {0, 1}, code \in MCCodes : New(Len(s.kid) + 1, 1, 0, hc, code)
        \/ \E i \in 0..Len(s.kid) : (\A k \in Cov(i) : s.kid[k].st = "none") /\ Len(s.kid) = MCKids /\ Call("start", i)
        \/ \E j \in {"drain", "wait", "fin", "abort"}, i \in 0..Len(s.kid) : Len(s.kid) = MCKids /\ Call(j, i)
        \/ \E i \in Kids : \/ s.kid[i].w[1] < MCLen /\ W(i, 1, s.kid[i].w[1], 1)
                           \/ WD(i, 1) \/ C(i, 0) \/ CD(i) \/ ReadFault \/ X(i) \/ LV(i) \/ RD(i, s.kid[i].rd, 1) \/ RD(i, s.kid[i].rd, 0) \/ Fault(i)
                           \/ s.kid[i].sent < MCLen /\ s.kid[i].st = "run" /\ Send(i, s.kid[i].sent, 1)
                           \/ s.kid[i].st = "run" /\ s.kid[i].ended = 0 /\ End(i)
                           \/ \E ans \in {0, -1} : Eof(i, 1, ans) \/ \E n \in 1..MCLen, f \in {0, 1} : Data(i, 1, s.kid[i].got[1], n, f, ans)
        \/ \E c \in MCCells : Ret(s.job, s.i, c)
        \/ Over
Spec == Init /\ [][Next]_vars
View == s
(* ---- what the properties say, checked on the specification itself *)
Prefix == \A k \in Kids, t \in {1, 2} : s.kid[k].got[t] <= s.kid[k].w[t]
StdinPrefix == \A k \in Kids : s.kid[k].rd <= s.kid[k].sent
EofIsLast == [][\A k \in Kids : k \in DOMAIN s'.kid => \A t \in {1, 2} : s.kid[k].eof[t] = 1 => (s'.kid[k].got[t] = s.kid[k].got[t] /\ s'.kid[k].eof[t] = 1)]_vars
WaitMeansDone == [][(ret'.op = "ret" /\ ret'.a[1] = "wait" /\ ret'.r[1] = 0) =>
                    \A k \in Cov(s.i) : (s.kid[k].st \in {"exit", "dead", "never", "none"} \/ s.kid[k].left = 1)
                        /\ (s.kid[k].st = "exit" => \A t \in {1, 2} : s.kid[k].has[t] = 1 => s.kid[k].eof[t] = 1 /\ s.kid[k].got[t] = s.kid[k].w[t])
                        /\ (s.kid[k].st = "exit" /\ s.kid[k].hc = 1 => ret'.a[3][k] # Unset)]_vars
FailMeansNoneRuns == [][(ret'.op = "ret" /\ ret'.a[1] # "send" /\ ret'.r[1] = -1) => \A k \in Cov(s.i) : s'.kid[k].st # "run" \/ s'.kid[k].left = 1]_vars
CellsFinal == [][\A k \in Kids : k \in DOMAIN s'.kid /\ s.kid[k].cell # Unset => s'.kid[k].cell = s.kid[k].cell]_vars
====
