------------------------------ MODULE MC_BigNum ------------------------------
(***************************************************************************)
(* Self test of the arithmetic layer.  Algebraic laws over a set of        *)
(* numbers with awkward limbs are invariants; the digest of every result   *)
(* is printed so that the harness can compare a run with the Java          *)
(* accelerator against a run of the plain TLA+ definitions.                *)
(***************************************************************************)
EXTENDS Fx, TLC, FiniteSets, IOUtils

AllMags == { <<>>, <<1>>, <<2>>, <<9999>>, <<0, 1>>, <<1, 1>>, <<9999, 9999>>,
          <<0, 0, 0, 0, 0, 0, 1>>, <<0, 0, 0, 0, 0, 0, 3, 7>>,
          <<1234, 5678, 9012, 3456, 7890, 1234, 5678>>,
          <<9999, 9999, 9999, 9999, 9999, 9999, 9999, 9999>>,
          <<1, 0, 0, 0, 5>>, <<5000, 0, 5000, 1, 0, 0, 0, 42>> }
SmallMags == { <<>>, <<1>>, <<9999>>, <<0, 1>>, <<9999, 9999>>, <<1234, 5678, 9012>> }
Mags == IF IOEnv.BIG_SMALL = "1" THEN SmallMags ELSE AllMags
Nums == { BZero } \cup { <<s>> \o m : s \in {-1, 1}, m \in Mags \ {<<>>} }

VARIABLES x, y
Init == x \in Nums /\ y \in Nums
Next == UNCHANGED <<x, y>>

RingLaws == /\ BAdd(x, y) = BAdd(y, x)
            /\ BSub(BAdd(x, y), y) = x
            /\ BMul(x, y) = BMul(y, x)
            /\ BMul(x, BAdd(y, BInt(1))) = BAdd(BMul(x, y), x)
            /\ BCmp(x, y) = BSgn(BSub(x, y))
            /\ BAbs(BMul(x, y)) = BMul(BAbs(x), BAbs(y))
DivLaws == y[1] # 0 =>
            LET q == BDiv(x, y) r == BMod(x, y) IN
            /\ BAdd(BMul(q, y), r) = x
            /\ BLt(BAbs(r), BAbs(y))
            /\ r[1] \in {0, y[1]}
ShiftLaws == \A k \in 0..7 : /\ BShift(BShift(x, k), -k) = x
                             /\ BShift(x, -k) = BDiv(x, BShift(BInt(1), k))
SqrtLaws == LET a == BAbs(x) r == BSqrt(a) IN
            /\ BLe(BMul(r, r), a)
            /\ BLt(a, BMul(BAdd(r, BInt(1)), BAdd(r, BInt(1))))

Digest == PrintT(<<"DIGEST", x, y, BAdd(x, y), BSub(x, y), BMul(x, y), BCmp(x, y),
                   IF y[1] = 0 THEN BZero ELSE BDiv(x, y),
                   IF y[1] = 0 THEN BZero ELSE BMod(x, y),
                   BShift(x, 3), BShift(x, -2), BShift(x, -9), BSqrt(BAbs(x)),
                   BNeg(x), BAbs(x), BLe(x, y), BLt(x, y)>>)
=============================================================================
