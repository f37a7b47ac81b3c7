-------------------------------- MODULE Date --------------------------------
(* Calendar, local time and clocks.  A time is <<d, s>>: days and seconds since 1970-01-01 00:00:00 UTC.
   A zone is [std, dst: seconds east of UTC; rule: BOOLEAN; b, e: <<month, week, weekday, second>>; sn, dn: names],
   with the POSIX rule "Mm.w.d/t" for the beginning and the end of daylight saving time.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
YLen(y) == IF Leap(y) THEN 366 ELSE 365
(* days before the year y, counted from 1970 *)
Before(y) == 365 * (y - 1970) + ((y - 1) \div 4 - 492) - ((y - 1) \div 100 - 19) + ((y - 1) \div 400 - 4)
CumN == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
MBefore(y, m) == CumN[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)
DayOf(y, m, d) == Before(y) + MBefore(y, m) + d - 1
YearOf(d) == LET g == 1970 + d \div 366 IN CHOOSE y \in (g - 1)..(g + 2) : Before(y) <= d /\ d < Before(y + 1)
MonOf(y, n) == CHOOSE m \in 1..12 : MBefore(y, m) <= n /\ n < MBefore(y, m) + MLen(y, m)
WDay(d) == (d + 4) % 7
Civil(d) == LET y == YearOf(d)
                n == d - Before(y)
                m == MonOf(y, n)
            IN [y |-> y, m |-> m, d |-> n - MBefore(y, m) + 1, w |-> WDay(d), n |-> n]
(* the broken-down time; m counts from 1 *)
Norm(t) == <<t[1] + (t[2] \div 86400), t[2] % 86400>>
Add(t, s) == Norm(<<t[1], t[2] + s>>)
Tm(t, dst) == LET c == Civil(t[1]) IN
  [y |-> c.y, m |-> c.m, d |-> c.d, h |-> t[2] \div 3600, mi |-> (t[2] \div 60) % 60, s |-> t[2] % 60, w |-> c.w, n |-> c.n, dst |-> dst]
Gm(t) == Tm(t, 0)
(* the moment (UTC) at which rule r takes effect in year y, if local time is then off seconds east *)
RuleDay(r, y) == LET first == DayOf(y, r[1], 1)
                     k == first + ((r[3] - WDay(first)) % 7) + 7 * (r[2] - 1)
                 IN IF k >= first + MLen(y, r[1]) THEN k - 7 ELSE k
At(r, y, off) == Norm(<<RuleDay(r, y), r[4] - off>>)
Le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
IsDst(z, t) == z.rule /\ LET y == YearOf(Add(t, z.std)[1])
                             b == At(z.b, y, z.std)
                             e == At(z.e, y, z.dst)
                         IN IF Le(b, e) THEN Le(b, t) /\ ~Le(e, t) ELSE Le(b, t) \/ ~Le(e, t)
Off(z, t) == IF IsDst(z, t) THEN z.dst ELSE z.std
Local(z, t) == Tm(Add(t, Off(z, t)), IF IsDst(z, t) THEN 1 ELSE 0)
Fields(x) == <<x.y, x.m, x.d, x.h, x.mi, x.s>>
(* the times that have these fields locally; in a gap of the local time, the fields in the time before or after it *)
MkTimes(z, x) == LET u == <<DayOf(x.y, x.m, x.d), x.h * 3600 + x.mi * 60 + x.s>>
                     c == {Add(u, -z.std)} \cup (IF z.rule THEN {Add(u, -z.dst)} ELSE {})
                     ex == {t \in c : Fields(Local(z, t)) = Fields(x) /\ (x.dst >= 0 => Local(z, t).dst = x.dst)}
                 IN IF ex # {} THEN ex ELSE c
(* Date.date: any fields, made canonical *)
Canon(a) == LET mi0 == a.mi + (a.s \div 60)
                h0 == a.h + (mi0 \div 60)
                dd == DayOf(a.y, a.m, 1) + a.d - 1 + (h0 \div 24)
                c == Civil(dd)
            IN [y |-> c.y, m |-> c.m, d |-> c.d, h |-> h0 % 24, mi |-> mi0 % 60, s |-> a.s % 60, w |-> c.w, n |-> c.n, dst |-> -1]
(* --- formats *)
P2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
S2(n) == IF n < 10 THEN " " \o ToString(n) ELSE ToString(n)
P3(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)
DN == <<"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday">>
D3 == <<"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat">>
MN == <<"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December">>
M3 == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
H12(h) == IF h % 12 = 0 THEN 12 ELSE h % 12
Hms(x) == P2(x.h) \o ":" \o P2(x.mi) \o ":" \o P2(x.s)
Conv(z, x, f) == CASE f = "a" -> D3[x.w + 1]
     [] f = "A" -> DN[x.w + 1]
     [] f = "b" -> M3[x.m]
     [] f = "B" -> MN[x.m]
     [] f = "c" -> D3[x.w + 1] \o " " \o M3[x.m] \o " " \o S2(x.d) \o " " \o Hms(x) \o " " \o ToString(x.y)
     [] f = "d" -> P2(x.d)
     [] f = "H" -> P2(x.h)
     [] f = "I" -> P2(H12(x.h))
     [] f = "j" -> P3(x.n + 1)
     [] f = "m" -> P2(x.m)
     [] f = "M" -> P2(x.mi)
     [] f = "p" -> IF x.h < 12 THEN "AM" ELSE "PM"
     [] f = "S" -> P2(x.s)
     [] f = "U" -> P2((x.n + 7 - x.w) \div 7)
     [] f = "w" -> ToString(x.w)
     [] f = "W" -> P2((x.n + 7 - ((x.w + 6) % 7)) \div 7)
     [] f = "x" -> P2(x.m) \o "/" \o P2(x.d) \o "/" \o P2(x.y % 100)
     [] f = "X" -> Hms(x)
     [] f = "y" -> P2(x.y % 100)
     [] f = "Y" -> ToString(x.y)
     [] f = "Z" -> IF x.dst = 1 THEN z.dn ELSE z.sn
     [] OTHER -> f                                    \* any other character stands for itself
(* a format is a sequence of [l: literal text] and [c: conversion character]; "" for none *)
RECURSIVE Fmt(_, _, _)
Fmt(z, x, fs) == IF fs = <<>> THEN "" ELSE Head(fs).l \o (IF Head(fs).c = "" THEN "" ELSE Conv(z, x, Head(fs).c)) \o Fmt(z, x, Tail(fs))
ToStr(x) == D3[x.w + 1] \o " " \o M3[x.m] \o " " \o P2(x.d) \o " " \o Hms(x) \o " " \o ToString(x.y)
(* dates whose daylight saving is unknown are made definite in local time before they are formatted *)
Defin(z, x) == IF x.dst >= 0 THEN {x} ELSE {Local(z, t) : t \in MkTimes(z, x)}
Past(t) == t[1] < 0
(* --- the clocks: lower bounds for the next readings (seconds, microseconds) *)
InitDate == [now |-> <<0, 0>>, u |-> <<0, 0>>, s |-> <<0, 0>>, g |-> <<0, 0>>, r |-> <<0, 0>>]
Plus(a, b) == LET n == a[2] + b[2] IN <<a[1] + b[1] + n \div 1000000, n % 1000000>>
Rec(x) == <<x.y, x.m, x.d, x.h, x.mi, x.s, x.w, x.n, x.dst>>
(* the date a step speaks about, as a set of possibilities *)
DateOf(z, v) == CASE v.k = "u" -> Gm(v.t) [] v.k = "l" -> Local(z, v.t) [] v.k = "m" -> Canon(v.a)
Ok(z, v) == LET x == DateOf(z, v) IN
   CASE v.op = "get" -> v.e = "" /\ v.r = Rec(x)
     [] v.op = "time" -> IF v.k = "u" THEN v.e = "" /\ v.r = v.t
                         ELSE \E t \in MkTimes(z, x) : IF Past(t) THEN v.e = "Date" ELSE v.e = "" /\ v.r = t
     [] v.op = "fmt" -> \E y \in Defin(z, x) : IF x.dst < 0 /\ \E t \in MkTimes(z, x) : Past(t) THEN v.e = "Date"
                                               ELSE v.e = "" /\ v.r = <<Fmt(z, y, v.f)>>
     [] v.op = "str" -> \E y \in Defin(z, x) : IF x.dst < 0 /\ \E t \in MkTimes(z, x) : Past(t) THEN v.e = "Date"
                                               ELSE v.e = "" /\ v.r = <<ToStr(y)>>
     [] v.op = "cmp" -> LET y == DateOf(z, v.o)
                            a == Fields(x)
                            b == Fields(y)
                            i == {j \in 1..6 : a[j] # b[j]}
                            j == CHOOSE k \in i : \A m \in i : k <= m
                        IN v.e = "" /\ v.r = <<IF i = {} THEN "EQUAL" ELSE IF a[j] < b[j] THEN "LESS" ELSE "GREATER">>
     [] v.op = "scan" -> LET y == [x EXCEPT !.dst = -1] IN v.e = "" /\ v.r = Rec(y)      \* fromString of "Www Mmm dd hh:mm:ss yyyy"
     [] v.op = "off" -> v.e = "" /\ v.r = <<-Off(z, v.t)>>
Accept(st, z, v) ==
  CASE v.op = "now" -> IF v.e = "" /\ Le(st.now, v.r) /\ Le(v.lo, v.r) /\ Le(v.r, v.hi) THEN {[st EXCEPT !.now = v.r]} ELSE {}
    [] v.op = "cpu" -> (* user, system, collector's and elapsed time never go back; the collector's share of a step is part of the user time of it *)
         IF v.e = "" /\ Le(st.u, v.u) /\ Le(st.s, v.s) /\ Le(st.g, v.g) /\ Le(st.r, v.w)
            /\ Le(v.g, Plus(v.u, <<0, 20000>>)) /\ Le(Plus(v.u, v.s), Plus(v.w, v.slack)) /\ Le(v.u, v.maxu) /\ Le(v.s, v.maxs)
            /\ Le(v.minu, v.u) /\ Le(v.mins, v.s) /\ Le(v.ming, v.g) /\ Le(v.g, v.maxg)
            /\ Le(v.u, Plus(Plus(v.nu, v.g), <<0, 5000>>)) /\ Le(Plus(v.nu, v.g), Plus(v.u, <<0, 5000>>)) /\ v.gs = <<0, 0>>
         THEN {[st EXCEPT !.u = v.u, !.s = v.s, !.g = v.g, !.r = v.w]} ELSE {}
    [] OTHER -> IF Ok(z, v) THEN {st} ELSE {}
=============================================================================
