------------------------------- MODULE Stamp -------------------------------
(* Names stamped with local date and time (rofl/common/io.h,                  *)
(* generateStampedString): prefix YYYYMMDD_hhmm_ss postfix.                   *)
(* An instant is <<d, s>>: days since 1970-01-01 (negative before) and seconds *)
(* of the day.  A zone is an offset from UTC, with or without summer time:    *)
(* [off, dst, start, end], dst = 0 for none, else the seconds added from the  *)
(* rule start (in standard time) to the rule end (in summer time); a rule is  *)
(* <<month, week 1..5 (5 = last), day of week 0..6 from Sunday, second>>.     *)
EXTENDS Integers, Sequences
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
(* days before 1 January of year y, from 1 January 1970 *)
YearStart(y) == LET n == y - 1 IN 365 * (y - 1970) + ((n \div 4) - (n \div 100) + (n \div 400)) - 477
YearOf(d) == LET a == d \div 366
                 b == d \div 365
                 lo == IF a < b THEN a ELSE b
                 hi == IF a < b THEN b ELSE a
             IN  CHOOSE y \in (lo + 1969)..(hi + 1971) : YearStart(y) <= d /\ d < YearStart(y + 1)
RECURSIVE MonthDay(_, _, _)
MonthDay(y, m, d) == IF d < MonthLen(y, m) THEN <<m, d + 1>> ELSE MonthDay(y, m + 1, d - MonthLen(y, m))
Date(d) == LET y == YearOf(d) IN <<y>> \o MonthDay(y, 1, d - YearStart(y))
Norm(d, s) == <<d + (s \div 86400), s % 86400>>
Plus(t, k) == Norm(t[1], t[2] + k)
Before(t, u) == t[1] < u[1] \/ (t[1] = u[1] /\ t[2] < u[2])
Fields(t) == Date(t[1]) \o <<t[2] \div 3600, (t[2] \div 60) % 60, t[2] % 60>>

(* ---- zones ---- *)
WeekDay(d) == (d + 4) % 7                                \* 1 January 1970 was a Thursday
RECURSIVE DaysBefore(_, _)
DaysBefore(y, m) == IF m = 1 THEN 0 ELSE MonthLen(y, m - 1) + DaysBefore(y, m - 1)
RuleDay(y, r) == LET first == YearStart(y) + DaysBefore(y, r[1])
                     d == first + ((r[3] - WeekDay(first)) % 7) + 7 * (r[2] - 1)
                 IN  IF d - first >= MonthLen(y, r[1]) THEN d - 7 ELSE d
(* the instants (UTC) at which summer time starts and ends in year y *)
StartOf(z, y) == Norm(RuleDay(y, z.start), z.start[4] - z.off)
EndOf(z, y) == Norm(RuleDay(y, z.end), z.end[4] - z.off - z.dst)
Summer(z, t) == /\ z.dst # 0
                /\ LET y == YearOf(t[1])
                       a == StartOf(z, y)
                       b == EndOf(z, y)
                   IN  IF Before(a, b) THEN ~Before(t, a) /\ Before(t, b) ELSE ~Before(t, a) \/ Before(t, b)
Offset(z, t) == z.off + (IF Summer(z, t) THEN z.dst ELSE 0)
Local(z, t) == Plus(t, Offset(z, t))

Digit(n) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[n + 1]
Two(n) == <<Digit(n \div 10), Digit(n % 10)>>
Four(n) == Two(n \div 100) \o Two(n % 100)
(* the stamp, character by character *)
StampOf(z, t) == LET f == Fields(Local(z, t)) IN
    Four(f[1]) \o Two(f[2]) \o Two(f[3]) \o <<"_">> \o Two(f[4]) \o Two(f[5]) \o <<"_">> \o Two(f[6])
=============================================================================
