import java.math.BigInteger;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Replaces the operators of spec/BigInt.tla by java.math.BigInteger. */
public class BigInt {
    private static final BigInteger TEN = BigInteger.TEN;
    private static final BigInteger BASE = BigInteger.valueOf(10000);
    private static volatile BigInteger[] POW = new BigInteger[0];   // 10000^(2^k)

    private static BigInteger pow2(int k) {
        BigInteger[] p = POW;
        if (k < p.length) return p[k];
        synchronized (BigInt.class) {
            p = POW;
            if (k < p.length) return p[k];
            BigInteger[] q = new BigInteger[k + 1];
            System.arraycopy(p, 0, q, 0, p.length);
            for (int i = p.length; i <= k; i++) q[i] = i == 0 ? BASE : q[i - 1].multiply(q[i - 1]);
            POW = q;
            return q[k];
        }
    }

    private static int int1(Value v) { return ((IntValue) v).val; }

    private static Value[] elems(Value v) { return ((TupleValue) v.toTuple()).elems; }

    private static BigInteger mag(Value[] e, int lo, int hi) {
        int n = hi - lo;
        if (n <= 64) {
            BigInteger r = BigInteger.ZERO;
            int i = lo;
            while (i < hi) {
                long acc = 0, mul = 1;
                for (int j = 0; j < 4 && i < hi; j++, i++) { acc = acc * 10000 + int1(e[i]); mul *= 10000; }
                r = r.signum() == 0 ? BigInteger.valueOf(acc) : r.multiply(BigInteger.valueOf(mul)).add(BigInteger.valueOf(acc));
            }
            return r;
        }
        int k = 31 - Integer.numberOfLeadingZeros(n - 1);
        int low = 1 << k;
        return mag(e, lo, hi - low).multiply(pow2(k)).add(mag(e, hi - low, hi));
    }

    private static BigInteger get(Value v) {
        Value[] e = elems(v);
        int s = int1(e[0]);
        if (s == 0) return BigInteger.ZERO;
        BigInteger m = mag(e, 1, e.length);
        return s < 0 ? m.negate() : m;
    }

    private static void put(BigInteger a, int[] out, int lo, int hi) {   // fills out[lo..hi) with a's digits
        int n = hi - lo;
        if (n <= 32 || a.signum() == 0) {
            int i = hi;
            if (n <= 32) {
                BigInteger q = a;
                BigInteger big = BigInteger.valueOf(1_0000_0000_0000_0000L);
                while (i > lo) {
                    long r;
                    if (q.bitLength() < 63) { r = q.longValue(); q = BigInteger.valueOf(r / 1_0000_0000_0000_0000L); r %= 1_0000_0000_0000_0000L; }
                    else { BigInteger[] d = q.divideAndRemainder(big); q = d[0]; r = d[1].longValue(); }
                    for (int j = 0; j < 4 && i > lo; j++) { out[--i] = (int) (r % 10000); r /= 10000; }
                }
            }
            return;
        }
        int k = 31 - Integer.numberOfLeadingZeros(n - 1);
        int low = 1 << k;
        BigInteger[] d = a.divideAndRemainder(pow2(k));
        put(d[0], out, lo, hi - low);
        put(d[1], out, hi - low, hi);
    }

    private static Value make(BigInteger a) {
        int s = a.signum();
        if (s == 0) return new TupleValue(new Value[] { IntValue.gen(0) });
        BigInteger m = a.abs();
        int n = (int) (m.bitLength() / 13.2877) + 2;
        int[] d = new int[n];
        put(m, d, 0, n);
        int z = 0;
        while (z < n && d[z] == 0) z++;
        Value[] r = new Value[n - z + 1];
        r[0] = IntValue.gen(s);
        for (int i = z; i < n; i++) r[i - z + 1] = IntValue.gen(d[i]);
        return new TupleValue(r);
    }

    private static BigInteger ten(int n) { return TEN.pow(n); }

    public static Value BFromLimbs(Value s, Value l) {
        Value[] e = elems(l);
        int z = 0;
        while (z < e.length && int1(e[z]) == 0) z++;
        if (z == e.length) return new TupleValue(new Value[] { IntValue.gen(0) });
        Value[] r = new Value[e.length - z + 1];
        r[0] = s;
        System.arraycopy(e, z, r, 1, e.length - z);
        return new TupleValue(r);
    }
    public static Value BInt(Value i) { return make(BigInteger.valueOf(int1(i))); }
    public static Value BCmp(Value a, Value b) {
        Value[] x = elems(a), y = elems(b);
        int s = int1(x[0]), t = int1(y[0]);
        if (s != t) return IntValue.gen(s < t ? -1 : 1);
        if (s == 0) return IntValue.gen(0);
        if (x.length != y.length) return IntValue.gen(x.length < y.length ? -s : s);
        for (int i = 1; i < x.length; i++) {
            int p = int1(x[i]), q = int1(y[i]);
            if (p != q) return IntValue.gen(p < q ? -s : s);
        }
        return IntValue.gen(0);
    }
    public static Value BAdd(Value a, Value b) { return make(get(a).add(get(b))); }
    public static Value BSub(Value a, Value b) { return make(get(a).subtract(get(b))); }
    public static Value BMul(Value a, Value b) { return make(get(a).multiply(get(b))); }
    public static Value BQuo(Value a, Value b) { return make(get(a).divide(get(b))); }
    public static Value BRem(Value a, Value b) { return make(get(a).remainder(get(b))); }
    public static Value BPow(Value a, Value n) { return make(get(a).pow(int1(n))); }
    public static Value BPow10(Value n) { return make(ten(int1(n))); }
    public static Value BScale(Value a, Value n) {
        Value[] e = elems(a);
        int k = int1(n);
        if (int1(e[0]) == 0 || k == 0) return a;
        if (k % 4 == 0) {
            Value[] r = new Value[e.length + k / 4];
            System.arraycopy(e, 0, r, 0, e.length);
            IntValue z = IntValue.gen(0);
            for (int i = e.length; i < r.length; i++) r[i] = z;
            return new TupleValue(r);
        }
        return make(get(a).multiply(ten(k)));
    }
    public static Value BSqrt(Value a) { return make(get(a).sqrt()); }
    public static Value BToDec(Value a) {
        Value[] e = elems(a);
        if (int1(e[0]) == 0) return new TupleValue(new Value[0]);
        int[] d = new int[(e.length - 1) * 4];
        for (int i = 1; i < e.length; i++) {
            int v = int1(e[i]);
            d[4 * i - 4] = v / 1000; d[4 * i - 3] = v / 100 % 10; d[4 * i - 2] = v / 10 % 10; d[4 * i - 1] = v % 10;
        }
        int z = 0;
        while (d[z] == 0) z++;
        Value[] r = new Value[d.length - z];
        for (int i = z; i < d.length; i++) r[i - z] = IntValue.gen(d[i]);
        return new TupleValue(r);
    }
    public static Value BDigits(Value a) {
        Value[] e = elems(a);
        if (int1(e[0]) == 0) return IntValue.gen(0);
        int v = int1(e[1]);
        return IntValue.gen((e.length - 2) * 4 + (v >= 1000 ? 4 : v >= 100 ? 3 : v >= 10 ? 2 : 1));
    }
    public static Value BFromDec(Value s, Value d) {
        Value[] e = elems(d);
        int n = (e.length + 3) / 4, off = n * 4 - e.length;
        Value[] l = new Value[n];
        for (int i = 0; i < n; i++) {
            int v = 0;
            for (int j = 0; j < 4; j++) { int p = 4 * i + j - off; v = v * 10 + (p < 0 ? 0 : int1(e[p])); }
            l[i] = IntValue.gen(v);
        }
        return BFromLimbs(IntValue.gen(int1(s) < 0 ? -1 : 1), new TupleValue(l));
    }
    public static Value BBits(Value a) { return IntValue.gen(get(a).abs().bitLength()); }
    public static Value BTrailingZeroes(Value a) {
        Value[] e = elems(a);
        if (int1(e[0]) == 0) return IntValue.gen(0);
        int n = 0;
        for (int i = e.length - 1; i > 0; i--) {
            int v = int1(e[i]);
            if (v == 0) { n += 4; continue; }
            while (v % 10 == 0) { n++; v /= 10; }
            break;
        }
        return IntValue.gen(n);
    }
    public static Value BToInt(Value a) { return IntValue.gen(get(a).intValueExact()); }
    private static BigInteger range(int lo, int hi) {
        if (lo > hi) return BigInteger.ONE;
        if (hi - lo < 8) {
            BigInteger r = BigInteger.valueOf(lo);
            for (int i = lo + 1; i <= hi; i++) r = r.multiply(BigInteger.valueOf(i));
            return r;
        }
        int m = lo + (hi - lo) / 2;
        return range(lo, m).multiply(range(m + 1, hi));
    }
    public static Value BRange(Value lo, Value hi) { return make(range(int1(lo), int1(hi))); }
    public static Value BKept(Value a) {
        Value[] e = elems(a);
        int n = e.length - 1;
        while (n > 0 && int1(e[n]) == 0) n--;
        return IntValue.gen(n);
    }
    public static Value BPairs(Value a, Value n) {
        Value[] e = elems(a);
        int k = int1(n);
        Value[] r = new Value[2 * k];
        for (int i = 0; i < k; i++) {
            int g = int1(e[i + 1]);
            r[2 * i] = IntValue.gen(g % 256);
            r[2 * i + 1] = IntValue.gen(g / 256);
        }
        return new TupleValue(r);
    }
    public static Value BUnpairs(Value s, Value b, Value i, Value n) {
        Value[] e = elems(b);
        int o = int1(i) - 1, k = int1(n);
        Value[] r = new Value[k];
        for (int j = 0; j < k; j++) {
            int g = int1(e[o + 2 * j]) + 256 * int1(e[o + 2 * j + 1]);
            if (g >= 10000) return new TupleValue(new Value[0]);
            r[j] = IntValue.gen(g);
        }
        return BFromLimbs(s, new TupleValue(r));
    }
    public static Value SFirstNot(Value s, Value i, Value set) {
        Value[] e = elems(s);
        for (int j = Math.max(int1(i) - 1, 0); j < e.length; j++) if (!set.member(e[j])) return IntValue.gen(j + 1);
        return IntValue.gen(e.length + 1);
    }
    public static Value SShift(Value s, Value k) {
        Value[] e = elems(s), r = new Value[e.length];
        int d = int1(k);
        for (int i = 0; i < r.length; i++) r[i] = IntValue.gen(int1(e[i]) + d);
        return new TupleValue(r);
    }
}
