------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* Proleptic Gregorian calendar, modified Julian days since 2000-01-01 and *)
(* decimal years.  DayNumber is the closed form; the odometer machine below*)
(* counts day by day with the rules a reader knows (month lengths and the  *)
(* 4/100/400 leap rule), and MC_Calendar checks that both agree.           *)
(***************************************************************************)
EXTENDS Fx

IsLeap(y) == (y % 4 = 0) /\ (y % 100 # 0 \/ y % 400 = 0)
DaysInYear(y) == IF IsLeap(y) THEN 366 ELSE 365
MonthLen(y, m) == CASE m = 2 -> IF IsLeap(y) THEN 29 ELSE 28
                    [] m \in {4, 6, 9, 11} -> 30
                    [] OTHER -> 31
ValidDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= MonthLen(y, m)

\* days from 0000-03-01 style count (years start in March), then shifted
DayNumber(y, m, d) ==
    LET a == IF m <= 2 THEN y - 1 ELSE y
        k == IF m <= 2 THEN m + 9 ELSE m - 3           \* March = 0
        c == 365*a + (a \div 4) - (a \div 100) + (a \div 400)
    IN c + ((153*k + 2) \div 5) + d - 1 - 730425
(* 730425 = the count of 2000-01-01; checked by the anchor of MC_Calendar *)

\* year containing day number n (n relative to 2000-01-01)
YearOf(n) == LET q == (400 * n) \div 146097          \* estimate of year - 2000
                 Fit(y) == DayNumber(y, 1, 1) <= n /\ n < DayNumber(y+1, 1, 1)
             IN CHOOSE y \in (2000 + q - 1)..(2000 + q + 1) : Fit(y)

\* ---- modified Julian date as a real number -----------------------------
NsPerDay == BMul(BInt(86400), BInt(1000000000))
\* total nanoseconds of time-of-day components (big integers)
TodNs(h, mi, s, us, ns) ==
    BAdd(BMul(BMul(h, BInt(3600)), BInt(1000000000)),
    BAdd(BMul(BMul(mi, BInt(60)), BInt(1000000000)),
    BAdd(BMul(s, BInt(1000000000)),
    BAdd(BMul(us, BInt(1000)), ns))))
Mjd(y, m, d, todns) == FAdd(F(DayNumber(y, m, d)), BDiv(FOfB(todns), NsPerDay))

\* ---- decimal years --------------------------------------------------------
YearFloor(x) == FFloor(x)
DyearToMjd(x, leap) ==
    IF leap THEN LET y == YearFloor(x)
                     fr == FSub(x, F(y))
                 IN FAdd(F(DayNumber(y, 1, 1)), FMulI(fr, DaysInYear(y)))
    ELSE FMul(FSub(x, F(2000)), FQ(36525, 100))
MjdToDyear(t, leap) ==
    IF leap THEN LET y == YearOf(FFloor(t))
                 IN FAdd(F(y), FDivI(FSub(t, F(DayNumber(y, 1, 1))), DaysInYear(y)))
    ELSE FAdd(FDiv(t, FQ(36525, 100)), F(2000))
=============================================================================
