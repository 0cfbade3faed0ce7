---- MODULE Timestamp ----
(* Timestamps: seconds since the epoch and a fraction in units of 2^-32 second.
   Seconds are given as <<days, seconds of the day>>, fractions and other 32-bit
   quantities as four base-256 digits. *)
EXTENDS Nat256, FiniteSets, TLC, Json
CONSTANTS MCSec, MCFormat, MCLen, MCFrac
VARIABLES ts, ret
vars == <<ts, ret>>
Init == ts = [day |-> 0, sod |-> 0, g |-> <<0, 0, 0, 0>>, sec |-> <<0, 0, 0, 0>>] /\ ret = [op |-> "init", a |-> <<>>, r |-> <<>>]
Reset == ts' = [day |-> 0, sod |-> 0, g |-> <<0, 0, 0, 0>>, sec |-> <<0, 0, 0, 0>>] /\ ret' = [op |-> "reset", a |-> <<>>, r |-> <<>>]
Pow10(n) == IF n = 0 THEN 1 ELSE <<10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000>>[n]
Half == <<0, 0, 0, 128>>
(* the readings of a fraction g in units of 1/d second: the nearest multiple - of g or
   of a fraction no more than one gammasecond away - that is below one second *)
Readings(g, d) ==
    LET R(q, f) ==
    {x \in {q, q + 1} : x < d /\ (x = q => q = d - 1 \/ Leq(f, AddN(Half, Num(d)))) /\ (x = q + 1 => Leq(Half, AddN(f, Num(d))))}
    IN UNION {R(Val(SubSeq(p, 5, 8)), SubSeq(p, 1, 4)) : p \in {MulN(g, Num(d))}}
(* the fraction that x units of 1/d second are stored as: within one gammasecond *)
Stores(g, x, d) == LET p == MulN(g, Num(d)) q == Shl8(Num(x), 4) IN Leq(p, AddN(q, Num(d))) /\ Leq(q, AddN(p, Num(d)))
Unit(u) == CASE u = "msec" -> 3 [] u = "usec" -> 6 [] u = "nsec" -> 9
Seconds(day, sod) == AddMod(MulN(Num(day), Num(86400)), Num(sod), 4)
(* -- the calendar: days since 1970-01-01 (possibly negative) -- *)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
YearDays(y) == IF Leap(y) THEN 366 ELSE 365
MonthDays(y) == <<31, IF Leap(y) THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
(* days before January 1st of year y *)
Before(y) == LET n == y - 1 IN 365 * (y - 1970) + (n \div 4 - 492) - (n \div 100 - 19) + (n \div 400 - 4)
YearOf(d) == CHOOSE y \in 1969..2110 : Before(y) <= d /\ d < Before(y + 1)
RECURSIVE MonthOf(_, _, _)
MonthOf(y, m, d) == IF d < MonthDays(y)[m] THEN <<m, d + 1>> ELSE MonthOf(y, m + 1, d - MonthDays(y)[m])
Calendar(day, sod) ==
    LET y == YearOf(day) md == MonthOf(y, 1, day - Before(y)) IN
    [year |-> y, month |-> md[1], mday |-> md[2], hour |-> sod \div 3600, min |-> (sod \div 60) % 60, sec |-> sod % 60]
(* in a zone so many seconds east *)
Shifted(t, off) == LET s == t.sod + off IN Calendar(t.day + s \div 86400, s % 86400)
Two(n) == PadZeros(DecText(Num(n)), 2)
(* -- formatting: the possible outcomes, <<0, text>> or <<-1, <<>>>> -- *)
Failed == <<-1, <<>>>>
IsDigit(c) == c \in 48..57
Field(t, c, x) == CASE x = 37 -> <<37>> [] x = 89 -> PadZeros(DecText(Num(c.year)), 4) [] x = 109 -> Two(c.month) [] x = 100 -> Two(c.mday)
                    [] x = 72 -> Two(c.hour) [] x = 77 -> Two(c.min) [] x = 83 -> Two(c.sec) [] x = 115 -> DecText(t.sec) [] OTHER -> <<>>
Ext(outs, x) == {o \o x : o \in outs}
(* read from left to right: within a specifier or not, its digits and their value (no longer growing beyond 100), the possible texts so far *)
Step(t, c, s, x) ==
    CASE s.dead = 1 -> s
      [] s.dead = 0 /\ s.spec = 0 -> IF x = 37 THEN [s EXCEPT !.spec = 1, !.n = 0, !.w = 0] ELSE [s EXCEPT !.outs = Ext(s.outs, <<x>>)]
      [] s.dead = 0 /\ s.spec = 1 /\ IsDigit(x) -> [s EXCEPT !.n = s.n + 1, !.w = IF s.w > 100 THEN s.w ELSE 10 * s.w + (x - 48)]
      [] s.dead = 0 /\ s.spec = 1 /\ x = 102 ->
             IF s.n = 0 \/ s.w \notin 1..9 THEN [s EXCEPT !.dead = 1]
             ELSE [s EXCEPT !.spec = 0, !.outs = UNION {Ext(s.outs, PadZeros(DecText(Num(v)), s.w)) : v \in Readings(t.g, Pow10(s.w))}]
      [] OTHER -> IF Field(t, c, x) = <<>> THEN [s EXCEPT !.dead = 1]
                  (* a width belongs to %f alone; elsewhere it may be refused *)
                  ELSE [s EXCEPT !.spec = 0, !.outs = Ext(s.outs, Field(t, c, x)), !.mayfail = IF s.n > 0 THEN 1 ELSE s.mayfail]
Fmt(t, c, f) == FoldLeft(LAMBDA s, x : Step(t, c, s, x), [spec |-> 0, n |-> 0, w |-> 0, outs |-> {<<>>}, mayfail |-> 0, dead |-> 0], f)
Outcomes(pre, s) == IF s.dead = 1 \/ s.spec = 1 THEN {Failed} ELSE {<<0, pre \o o>> : o \in s.outs} \cup (IF s.mayfail = 1 THEN {Failed} ELSE {})
Made(day, sod, g) == [day |-> day, sod |-> sod, g |-> g, sec |-> Seconds(day, sod)]
Is(t, op, a, r) == ts' \in {t} /\ ret' = [op |-> op, a |-> a, r |-> r]
Do(op, a) ==
    CASE op = "sec" -> Is(Made(a[1], a[2], <<0, 0, 0, 0>>), op, a, 0)
      [] op = "gsec" -> Is(Made(a[1], a[2], a[3]), op, a, 0)
      (* the last argument is the fraction the implementation chose *)
      [] op \in {"msec", "usec", "nsec"} ->
             /\ Len(a[4]) = 4 /\ a[3] < Pow10(Unit(op)) /\ Stores(a[4], a[3], Pow10(Unit(op))) /\ a[3] \in Readings(a[4], Pow10(Unit(op)))
             /\ Is(Made(a[1], a[2], a[4]), op, a, 0)
      (* a reading; exact where the timestamp was built from the same or a coarser unit *)
      [] op = "read" ->
             \E x \in Readings(ts.g, Pow10(Unit(a[1]))) :
                 /\ ret.op \in {"msec", "usec", "nsec"} /\ Unit(ret.op) <= Unit(a[1]) => x = ret.a[3] * Pow10(Unit(a[1]) - Unit(ret.op))
                 /\ ts' = ts /\ ret' = [op |-> IF ret.op \in {"msec", "usec", "nsec"} THEN ret.op ELSE op,
                                        a |-> IF ret.op \in {"msec", "usec", "nsec"} THEN ret.a ELSE a, r |-> x]
      [] op = "format" -> \E c \in {Shifted(ts, a[1])} : \E s \in {Fmt(ts, c, a[3])} : \E o \in Outcomes(a[2], s) : Is(ts, op, a, o)
      [] op = "now" -> Is(ts, op, a, 1)
      [] OTHER -> FALSE
Obs == <<ts.sec, ts.g>>
Formats == UNION {[1..n -> MCFormat] : n \in 0..MCLen}
Next == /\ ret.op \in {"init", "gsec"}
        /\ \/ ret.op = "init" /\ \E s \in MCSec, g \in MCFrac : Do("gsec", <<s[1], s[2], g>>)
           \/ ret.op = "gsec" /\ \E f \in Formats, off \in {0, 19800, -28800} : Do("format", <<off, <<>>, f>>)
           \/ ret.op = "gsec" /\ \E u \in {"msec", "usec", "nsec"} : Do("read", <<u>>)
Spec == Init /\ [][Next]_vars
(* -- the definitions' own soundness -- *)
(* every fraction has a reading in every unit, and the fraction floor(x * 2^32 / d) reads back as x and as nothing else in its unit,
   and as exactly that in every finer one *)
Readable == ret.op = "gsec" => \A w \in 1..9 : Readings(ts.g, Pow10(w)) # {} /\ \A x \in Readings(ts.g, Pow10(w)) : x >= 0 /\ x < Pow10(w)
(* the calendar agrees with counting: day by day *)
Sane(c) == c.month \in 1..12 /\ c.mday \in 1..MonthDays(c.year)[c.month] /\ c.hour \in 0..23 /\ c.min \in 0..59 /\ c.sec \in 0..59
NextDay(c) == IF c.mday < MonthDays(c.year)[c.month] THEN <<c.year, c.month, c.mday + 1>> ELSE IF c.month < 12 THEN <<c.year, c.month + 1, 1>> ELSE <<c.year + 1, 1, 1>>
Date(c) == <<c.year, c.month, c.mday>>
CalendarOk == ret.op = "gsec" => Sane(Calendar(ts.day, ts.sod)) /\ Date(Calendar(ts.day + 1, 0)) = NextDay(Calendar(ts.day, 0)) /\ Date(Calendar(0, 0)) = <<1970, 1, 1>>
====
