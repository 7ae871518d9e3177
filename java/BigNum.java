// Accelerator for spec/BigNum.tla: the same operators on java.math.BigInteger.
// Equivalence with the TLA+ definitions is checked by `harness/check.py selftest`.
import java.math.BigInteger;
import tlc2.value.impl.*;

public class BigNum {
    static final int BASE = 10000;
    static final BigInteger B = BigInteger.valueOf(BASE);
    static final IntValue[] SMALL = new IntValue[BASE];
    static { for (int i = 0; i < BASE; i++) SMALL[i] = IntValue.gen(i); }

    static int ival(Value v) { return ((IntValue) v).val; }

    static Value[] elems(Value v) {
        if (v instanceof TupleValue) return ((TupleValue) v).elems;
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("BigNum: not a number: " + v);
        return ((TupleValue) t).elems;
    }

    static BigInteger big(Value v) {
        Value[] e = elems(v);
        int n = e.length - 1;
        if (n == 0) {
            int s0 = ival(e[0]);
            if (s0 != 0) throw new RuntimeException("BigNum: not finite: " + v);
            return BigInteger.ZERO;
        }
        // pack four limbs (16 digits) at a time into a long
        BigInteger r = BigInteger.ZERO;
        int i = n;
        int head = n % 4;
        if (head > 0) {
            long a = 0;
            for (int k = 0; k < head; k++) a = a * BASE + ival(e[i--]);
            r = BigInteger.valueOf(a);
        }
        while (i > 0) {
            long a = 0;
            for (int k = 0; k < 4; k++) a = a * BASE + ival(e[i--]);
            r = r.multiply(E16).add(BigInteger.valueOf(a));
        }
        int s = ival(e[0]);
        if (s != 1 && s != -1) throw new RuntimeException("BigNum: not finite: " + v);
        return s < 0 ? r.negate() : r;
    }
    static final BigInteger E16 = BigInteger.TEN.pow(16);

    static Value tup(BigInteger x) {
        int s = x.signum();
        if (s == 0) return new TupleValue(new Value[] { SMALL[0] });
        x = x.abs();
        int max = (int) (x.bitLength() / 13.28) + 6;
        Value[] tmp = new Value[max];
        int n = 0;
        while (x.bitLength() > 62) {
            BigInteger[] qr = x.divideAndRemainder(E16);
            long a = qr[1].longValue();
            for (int k = 0; k < 4; k++) { tmp[n++] = SMALL[(int) (a % BASE)]; a /= BASE; }
            x = qr[0];
        }
        long a = x.longValue();
        while (a > 0) { tmp[n++] = SMALL[(int) (a % BASE)]; a /= BASE; }
        while (n > 0 && tmp[n-1] == SMALL[0]) n--;
        Value[] e = new Value[n + 1];
        e[0] = IntValue.gen(s);
        System.arraycopy(tmp, 0, e, 1, n);
        return new TupleValue(e);
    }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static BigInteger floorDiv(BigInteger a, BigInteger b) {
        BigInteger[] qr = a.divideAndRemainder(b);
        if (qr[1].signum() != 0 && qr[1].signum() != b.signum()) return qr[0].subtract(BigInteger.ONE);
        return qr[0];
    }
    static final BigInteger[] POW = new BigInteger[64];
    static { POW[0] = BigInteger.ONE; for (int i = 1; i < 64; i++) POW[i] = POW[i-1].multiply(B); }
    static BigInteger pow(int k) { return k < 64 ? POW[k] : B.pow(k); }

    public static Value BInt(Value n) { return tup(BigInteger.valueOf(ival(n))); }
    public static Value BToInt(Value x) { return IntValue.gen(big(x).intValueExact()); }
    public static Value BNeg(Value x) { return tup(big(x).negate()); }
    public static Value BAbs(Value x) { return tup(big(x).abs()); }
    public static Value BCmp(Value x, Value y) { return IntValue.gen(big(x).compareTo(big(y))); }
    public static Value BLe(Value x, Value y) { return bool(big(x).compareTo(big(y)) <= 0); }
    public static Value BLt(Value x, Value y) { return bool(big(x).compareTo(big(y)) < 0); }
    public static Value BAdd(Value x, Value y) { return tup(big(x).add(big(y))); }
    public static Value BSub(Value x, Value y) { return tup(big(x).subtract(big(y))); }
    public static Value BMul(Value x, Value y) { return tup(big(x).multiply(big(y))); }
    public static Value BDiv(Value x, Value y) { return tup(floorDiv(big(x), big(y))); }
    public static Value BMod(Value x, Value y) {
        BigInteger a = big(x), b = big(y);
        return tup(a.subtract(b.multiply(floorDiv(a, b))));
    }
    public static Value BShift(Value x, Value k) {
        int n = ival(k);
        BigInteger a = big(x);
        return tup(n >= 0 ? a.multiply(pow(n)) : floorDiv(a, pow(-n)));
    }
    public static Value BSqrt(Value x) { return tup(big(x).sqrt()); }
}
