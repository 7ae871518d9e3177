------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Arbitrary-precision integers as limb sequences.                         *)
(*                                                                         *)
(* TLC integers are 32 bit, so every number that the implementation        *)
(* exchanges with the specification is a sequence  <<s, l0, l1, ..., lk>>  *)
(* with sign s \in {-1,0,1} and little-endian base-10^4 limbs, lk # 0;     *)
(* zero is <<0>>.  The definitions below are complete and executable;      *)
(* java/BigNum.java overrides the operators marked (override) with         *)
(* java.math.BigInteger purely as an accelerator, and MC_BigNum evaluates  *)
(* both and compares them (check `selftest`).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

BBase == 10000

BZero == <<0>>

\* ---- magnitudes: sequences of limbs without trailing zeros -------------
RECURSIVE MTrim(_)
MTrim(m) == IF Len(m) = 0 THEN m
            ELSE IF m[Len(m)] = 0 THEN MTrim(SubSeq(m, 1, Len(m)-1)) ELSE m

MAt(m, i) == IF i >= 1 /\ i <= Len(m) THEN m[i] ELSE 0

MMax(a, b) == IF a > b THEN a ELSE b

RECURSIVE MCmpFrom(_, _, _)
MCmpFrom(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] < b[i] THEN -1
                     ELSE IF a[i] > b[i] THEN 1 ELSE MCmpFrom(a, b, i-1)
MCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1 ELSE MCmpFrom(a, b, Len(a))

RECURSIVE MCarry(_, _, _, _)
MCarry(m, i, c, acc) ==  \* normalise limbs (possibly >= base) with carry
    IF i > Len(m)
    THEN IF c = 0 THEN acc ELSE MCarry(m, i+1, c \div BBase, Append(acc, c % BBase))
    ELSE LET t == m[i] + c IN MCarry(m, i+1, t \div BBase, Append(acc, t % BBase))
MNorm(m) == MTrim(MCarry(m, 1, 0, <<>>))

MAdd(a, b) == MNorm([i \in 1..MMax(Len(a), Len(b)) |-> MAt(a, i) + MAt(b, i)])
\* a >= b; \div and % are floored in TLA+, so borrows propagate as carries
MSub(a, b) == MNorm([i \in 1..Len(a) |-> MAt(a, i) - MAt(b, i)])

\* schoolbook product, one row at a time
RECURSIVE MMulRows(_, _, _, _)
MMulRows(a, b, i, acc) ==
    IF i > Len(a) THEN acc
    ELSE MMulRows(a, b, i+1,
           MAdd(acc, MNorm([k \in 1..(i-1+Len(b)) |-> IF k < i THEN 0 ELSE a[i] * b[k-i+1]])))
MMul(a, b) == IF Len(a) = 0 \/ Len(b) = 0 THEN <<>> ELSE MMulRows(a, b, 1, <<>>)

\* largest q in lo..hi with q*b <= r
RECURSIVE MQDigit(_, _, _, _)
MQDigit(r, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2 IN
         IF MCmp(MMul(MNorm(<<mid>>), b), r) <= 0 THEN MQDigit(r, b, mid, hi)
                                                  ELSE MQDigit(r, b, lo, mid-1)
RECURSIVE MDivRec(_, _, _, _, _)
MDivRec(a, b, i, q, r) ==  \* q: quotient limbs so far (little endian), r: remainder
    IF i = 0 THEN <<MTrim(q), r>>
    ELSE LET r1 == MTrim(<<a[i]>> \o r)
             d  == MQDigit(r1, b, 0, BBase-1)
             r2 == MSub(r1, MMul(MNorm(<<d>>), b))
         IN MDivRec(a, b, i-1, <<d>> \o q, r2)
MDivMod(a, b) == MDivRec(a, b, Len(a), <<>>, <<>>)

\* ---- signed integers ----------------------------------------------------
BMag(x) == Tail(x)
BMake(s, m) == IF Len(m) = 0 THEN BZero ELSE <<s>> \o m

RECURSIVE MOfNat(_)
MOfNat(n) == IF n = 0 THEN <<>> ELSE <<n % BBase>> \o MOfNat(n \div BBase)
BInt(n) == IF n = 0 THEN BZero                                  \* (override)
           ELSE IF n < 0 THEN <<-1>> \o MOfNat(-n) ELSE <<1>> \o MOfNat(n)

RECURSIVE MToNat(_)
MToNat(m) == IF Len(m) = 0 THEN 0 ELSE m[1] + BBase * MToNat(Tail(m))
BToInt(x) == x[1] * MToNat(BMag(x))                             \* (override)

BNeg(x) == [x EXCEPT ![1] = -x[1]]                              \* (override)
BAbs(x) == IF x[1] < 0 THEN BNeg(x) ELSE x                      \* (override)
BSgn(x) == x[1]

BCmp(x, y) == IF x[1] < y[1] THEN -1                            \* (override)
              ELSE IF x[1] > y[1] THEN 1
              ELSE x[1] * MCmp(BMag(x), BMag(y))
BLe(x, y) == BCmp(x, y) <= 0                                    \* (override)
BLt(x, y) == BCmp(x, y) < 0                                     \* (override)

BAdd(x, y) == IF x[1] = 0 THEN y                                \* (override)
              ELSE IF y[1] = 0 THEN x
              ELSE IF x[1] = y[1] THEN BMake(x[1], MAdd(BMag(x), BMag(y)))
              ELSE LET c == MCmp(BMag(x), BMag(y)) IN
                   IF c = 0 THEN BZero
                   ELSE IF c > 0 THEN BMake(x[1], MSub(BMag(x), BMag(y)))
                   ELSE BMake(y[1], MSub(BMag(y), BMag(x)))
BSub(x, y) == BAdd(x, BNeg(y))                                  \* (override)
BMul(x, y) == IF x[1] = 0 \/ y[1] = 0 THEN BZero                \* (override)
              ELSE BMake(x[1]*y[1], MMul(BMag(x), BMag(y)))

\* floored division
BDiv(x, y) == IF x[1] = 0 THEN BZero                            \* (override)
              ELSE LET d == MDivMod(BMag(x), BMag(y)) IN
                   IF x[1] = y[1] THEN BMake(1, d[1])
                   ELSE IF Len(d[2]) = 0 THEN BMake(-1, d[1])
                   ELSE BMake(-1, MAdd(d[1], <<1>>))
BMod(x, y) == BSub(x, BMul(y, BDiv(x, y)))                      \* (override)

\* x * (10^4)^k for k >= 0, floor division by (10^4)^(-k) for k < 0
BShift(x, k) ==                                                 \* (override)
    IF x[1] = 0 THEN x
    ELSE IF k >= 0 THEN <<x[1]>> \o [i \in 1..k |-> 0] \o BMag(x)
    ELSE LET m == BMag(x)
             low  == SubSeq(m, 1, MMax(0, IF -k > Len(m) THEN Len(m) ELSE -k))
             high == IF -k >= Len(m) THEN <<>> ELSE SubSeq(m, -k+1, Len(m))
         IN IF x[1] > 0 THEN BMake(1, high)
            ELSE IF Len(MTrim(low)) = 0 THEN BMake(-1, high)
            ELSE BMake(-1, MAdd(high, <<1>>))

\* integer square root (floor) of x >= 0, Newton iteration from above
RECURSIVE BNewton(_, _)
BNewton(x, g) == LET h == BDiv(BAdd(g, BDiv(x, g)), BInt(2)) IN
                 IF BCmp(h, g) >= 0 THEN g ELSE BNewton(x, h)
BSqrt(x) == IF x[1] = 0 THEN BZero                              \* (override)
            ELSE BNewton(x, BMake(1, [i \in 1..((Len(x) \div 2) + 1) |-> BBase - 1]))
=============================================================================
