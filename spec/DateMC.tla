------------------------------- MODULE DateMC -------------------------------
(* A calendar advanced day by day (and a local clock advanced hour by hour around the changes of a zone), compared with
   the closed forms of Date.                                                                                          *)
EXTENDS Date
CONSTANTS FirstYear, LastYear
Zones == << [std |-> -18000, dst |-> -14400, rule |-> TRUE, b |-> <<3, 2, 0, 7200>>, e |-> <<11, 1, 0, 7200>>, sn |-> "EST", dn |-> "EDT"],
            [std |-> 36000, dst |-> 39600, rule |-> TRUE, b |-> <<10, 1, 0, 7200>>, e |-> <<4, 1, 0, 10800>>, sn |-> "AEST", dn |-> "AEDT"],
            [std |-> 19800, dst |-> 0, rule |-> FALSE, b |-> <<1, 1, 0, 0>>, e |-> <<1, 1, 0, 0>>, sn |-> "IST", dn |-> ""] >>
VARIABLES day, cal
vars == <<day, cal>>
(* every year from its first day to the first day of the next *)
Init == \E y \in FirstYear..LastYear : day = Before(y) /\ cal = [y |-> y, m |-> 1, d |-> 1, w |-> WDay(day), n |-> 0]
Next == /\ ~(cal.n = 0 /\ cal.y > FirstYear /\ day # Before(cal.y))
        /\ day' = day + 1
        /\ cal' = IF cal.d < MLen(cal.y, cal.m) THEN [cal EXCEPT !.d = @ + 1, !.w = (@ + 1) % 7, !.n = @ + 1]
                  ELSE IF cal.m < 12 THEN [cal EXCEPT !.d = 1, !.m = @ + 1, !.w = (@ + 1) % 7, !.n = @ + 1]
                  ELSE [y |-> cal.y + 1, m |-> 1, d |-> 1, w |-> (cal.w + 1) % 7, n |-> 0]
        /\ cal'.y <= LastYear
Spec == Init /\ [][Next]_vars
Closed == Civil(day) = cal /\ DayOf(cal.y, cal.m, cal.d) = day
(* every time is one of the times that its local fields denote; daylight saving is what it is said to be *)
Round == \A i \in DOMAIN Zones, s \in {0, 3599, 3600, 7199, 25200, 50399, 86399} :
   LET z == Zones[i]
       t == <<day, s>>
       x == Local(z, t)
   IN /\ MkTimes(z, x) = {t}
      /\ t \in MkTimes(z, [x EXCEPT !.dst = -1]) /\ Cardinality(MkTimes(z, [x EXCEPT !.dst = -1])) <= 2
      /\ Fields(Canon([y |-> x.y, m |-> x.m, d |-> x.d, h |-> x.h, mi |-> x.mi, s |-> x.s])) = Fields(x)
      /\ Fields(Canon([y |-> x.y, m |-> x.m, d |-> x.d + 30, h |-> x.h - 720, mi |-> x.mi, s |-> x.s])) = Fields(x)
(* it changes only in the months of the rules *)
Changes == \A i \in DOMAIN Zones : IsDst(Zones[i], <<day, 43200>>) # IsDst(Zones[i], <<day - 1, 43200>>) =>
              Zones[i].rule /\ cal.m \in {Zones[i].b[1], Zones[i].e[1]} /\ cal.d <= 15 /\ cal.w \in {0, 1}
=============================================================================
