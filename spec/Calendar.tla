------------------------------ MODULE Calendar ------------------------------
(* Numbers and times as texts (sequences of codes).                            *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
RECURSIVE Decimal(_)
Decimal(n) == IF n < 0 THEN <<45>> \o Decimal(0 - n)
              ELSE IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
Two(n) == <<48 + ((n \div 10) % 10), 48 + (n % 10)>>

(* The calendar: years of 365 days, every 4th 366, but for every 100th, and yet *)
(* for every 400th.                                                             *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysBefore(y) == 365 * (y - 1970) + ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400) - 477
YearOf(d) == CHOOSE y \in (1969 + (d \div 366))..(1971 + (d \div 365)) : DaysBefore(y) <= d /\ d < DaysBefore(y + 1)
MonthLengths(y) == <<31, IF Leap(y) THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
RECURSIVE MonthDay(_, _, _)
MonthDay(y, m, d) == IF d < MonthLengths(y)[m] THEN <<m, d + 1>> ELSE MonthDay(y, m + 1, d - MonthLengths(y)[m])
\* `days` and `seconds` since 1970, with `offset` minutes east of Greenwich
TimeText(days, seconds, offset) ==
    LET s == seconds + offset * 60
        d == days + (IF s < 0 THEN 0 - 1 ELSE IF s >= 86400 THEN 1 ELSE 0)
        t == (s + 86400) % 86400
        y == YearOf(d)
        md == MonthDay(y, 1, d - DaysBefore(y))
    IN Two(md[1]) \o <<45>> \o Two(md[2]) \o <<45>> \o Two(y \div 100) \o Two(y % 100)
       \o <<32>> \o Two(t \div 3600) \o <<58>> \o Two((t \div 60) % 60) \o <<58>> \o Two(t % 60)
=============================================================================
