---------------------------- MODULE MC_Calendar ----------------------------
(* The odometer: one step is one day (or, at midnight rollover, a carry).   *)
EXTENDS Calendar, TLC, IOUtils, Sequences
Lo == atoi(IOEnv.CAL_LO)
Hi == atoi(IOEnv.CAL_HI)
Special == { -401, -400, -101, -100, -4, -1, 0, 1, 4, 99, 100, 101, 399, 400, 401, 1582, 1699,
             1700, 1799, 1800, 1899, 1900, 1904, 1970, 1996, 1999, 2000, 2001,
             2004, 2023, 2024, 2099, 2100, 2101, 2199, 2200, 2399, 2400, 9996,
             9999 }
Years == IF Lo > Hi THEN Special ELSE Lo..Hi
VARIABLES y, m, d, n, y0
vars == <<y, m, d, n, y0>>
Init == /\ y0 \in Years /\ y = y0 /\ m = 1 /\ d = 1 /\ n = DayNumber(y0, 1, 1)
NextDay == /\ y = y0 /\ n' = n + 1 /\ y0' = y0
           /\ IF d < MonthLen(y, m) THEN d' = d + 1 /\ m' = m /\ y' = y
              ELSE /\ d' = 1
                   /\ IF m < 12 THEN m' = m + 1 /\ y' = y
                      ELSE m' = 1 /\ y' = y + 1
Next == NextDay
\* the closed form counts every day once and inverts
CountInv == n = DayNumber(y, m, d) /\ ValidDate(y, m, d)
YearInv == YearOf(n) = y
Anchor == (y = 2000 /\ m = 1 /\ d = 1) => n = 0
\* length of the year
LenInv == (y # y0) => n - DayNumber(y0, 1, 1) = DaysInYear(y0)
Period == DayNumber(y + 400, m, d) = n + 146097
\* decimal years: inverse on a grid of fractions of this day, monotone over the day
Fracs == <<F0, FQ(1, 16), FQ(1, 3), FQ(99, 100)>>
DyInv == d \in {1, 28, 31} =>
         \A i \in 1..4 : LET t == FAdd(F(n), Fracs[i]) IN
           /\ Near(DyearToMjd(MjdToDyear(t, TRUE), TRUE), t, Eps(19))
           /\ Near(DyearToMjd(MjdToDyear(t, FALSE), FALSE), t, Eps(19))
           /\ FLt(MjdToDyear(t, TRUE), MjdToDyear(F(n + 1), TRUE))
           /\ FLt(MjdToDyear(t, FALSE), MjdToDyear(F(n + 1), FALSE))
\* carries: 24 h, 60 min, 60 s, ... are the next larger unit
Carry == LET z == BZero o == BInt(1) IN
         /\ TodNs(BInt(24), z, z, z, z) = NsPerDay
         /\ TodNs(o, z, z, z, z) = TodNs(z, BInt(60), z, z, z)
         /\ TodNs(z, o, z, z, z) = TodNs(z, z, BInt(60), z, z)
         /\ TodNs(z, z, o, z, z) = TodNs(z, z, z, BInt(1000000), z)
         /\ TodNs(z, z, z, o, z) = TodNs(z, z, z, z, BInt(1000))
ASSUME Carry
=============================================================================
