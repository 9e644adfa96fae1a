------------------------------ MODULE StampMC ------------------------------
(* Every day From..To (days from 1970 plus Shift), with the edges of days,    *)
(* hours and minutes, and every zone change of the years in that range.       *)
EXTENDS Stamp, TLC, Json
CONSTANTS Days, Shift, Emit
VARIABLES d, s, z, phase
vars == <<d, s, z, phase>>
UTC == [off |-> 0, dst |-> 0, start |-> <<1, 1, 0, 0>>, end |-> <<1, 1, 0, 0>>]
Zones == <<UTC,
  [off |-> 19800, dst |-> 0, start |-> <<1, 1, 0, 0>>, end |-> <<1, 1, 0, 0>>],
  [off |-> -12600, dst |-> 0, start |-> <<1, 1, 0, 0>>, end |-> <<1, 1, 0, 0>>],
  [off |-> 50400, dst |-> 0, start |-> <<1, 1, 0, 0>>, end |-> <<1, 1, 0, 0>>],
  [off |-> 3600, dst |-> 3600, start |-> <<3, 5, 0, 7200>>, end |-> <<10, 5, 0, 10800>>],      \* central Europe
  [off |-> -18000, dst |-> 3600, start |-> <<3, 2, 0, 7200>>, end |-> <<11, 1, 0, 7200>>],     \* eastern America
  [off |-> 37800, dst |-> 1800, start |-> <<10, 1, 0, 7200>>, end |-> <<4, 1, 0, 7200>>],      \* Lord Howe, south
  [off |-> -10800, dst |-> 3600, start |-> <<9, 1, 6, 86400>>, end |-> <<4, 1, 6, 86400>>]>>   \* transitions at midnight
Seconds == {1, 59, 60, 61, 599, 600, 3599, 3600, 35999, 36000, 43200, 46800, 86399}
Init == phase = "day" /\ s = 0 /\ z = UTC /\ d \in {1000 * k - Shift : k \in 0..(Days \div 1000)}
Say(t, y) == PrintT("@@" \o ToJson([d |-> t[1], s |-> t[2], zone |-> y]))
Next == \/ phase = "day" /\ (d + Shift) % 1000 # 999 /\ d + Shift < Days /\ d' = d + 1 /\ UNCHANGED <<s, z, phase>>
        \/ phase = "day" /\ d % Emit = 0 /\ phase' = "second" /\ s' \in Seconds /\ z' = Zones[((s' + d) % Len(Zones)) + 1] /\ UNCHANGED d
           /\ Say(<<d, s'>>, z')
        \/ phase = "day" /\ (d - YearStart(YearOf(d))) = 40 /\ phase' = "change"
           /\ \E k \in {k \in DOMAIN Zones : Zones[k].dst # 0} : \E e \in {-3600, -1, 0, 1, 3599, 3600} :
                \E t \in {Plus(StartOf(Zones[k], YearOf(d)), e), Plus(EndOf(Zones[k], YearOf(d)), e)} :
                   /\ z' = Zones[k] /\ d' = t[1] /\ s' = t[2]
                   /\ ((YearOf(d) % 7 = k % 7) => Say(t, Zones[k]))
Spec == Init /\ [][Next]_vars
Less(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
T == <<d, s>>
ValidInv == LET f == Fields(Local(z, T)) IN f[2] \in 1..12 /\ f[3] \in 1..MonthLen(f[1], f[2]) /\ f[4] \in 0..23 /\ f[5] \in 0..59 /\ f[6] \in 0..59
(* later times have later fields, unless the clocks go back in between; so stamped names sort by time *)
OrderInv == /\ (Offset(z, T) <= Offset(z, Plus(T, 1)) => Less(Fields(Local(z, T)), Fields(Local(z, Plus(T, 1)))))
            /\ Less(Date(d), Date(d + 1))
(* the day number can be computed back from the date *)
InverseInv == LET f == Fields(T) IN
    (YearStart(f[1]) + DaysBefore(f[1], f[2]) + f[3] - 1 = d) /\ f[4] * 3600 + f[5] * 60 + f[6] = s
LengthInv == Len(StampOf(z, T)) = 16
(* the clock changes exactly at the two instants of the year, by dst seconds *)
ChangeInv == (phase = "change") => LET y == YearOf(d) IN
    /\ Offset(z, StartOf(z, y)) = z.off + z.dst /\ Offset(z, Plus(StartOf(z, y), -1)) = z.off
    /\ Offset(z, EndOf(z, y)) = z.off /\ Offset(z, Plus(EndOf(z, y), -1)) = z.off + z.dst
    /\ WeekDay(RuleDay(y, z.start)) = z.start[3] /\ WeekDay(RuleDay(y, z.end)) = z.end[3]
EpochInv == YearStart(1970) = 0 /\ YearStart(2000) = 10957 /\ Date(11016) = <<2000, 2, 29>> /\ Date(-1) = <<1969, 12, 31>> /\ WeekDay(11016) = 2
=============================================================================
