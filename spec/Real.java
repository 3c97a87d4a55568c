import java.math.BigInteger;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.BoolValue;

/** TLC override of the operators of Real.tla (same semantics, see RealCheck.tla). */
public class Real {
    static final int P = 10, W = 15;
    static final BigInteger MASK = BigInteger.valueOf((1 << W) - 1);
    static final Value ZERO = tup(new int[] {0, 0}), NAN = tup(new int[] {2, 0});

    static Value tup(int[] a) {
        Value[] v = new Value[a.length];
        for (int i = 0; i < a.length; i++) v[i] = IntValue.gen(a[i]);
        return new TupleValue(v);
    }
    /** m * B^k ; m == null is NaN */
    static final class N {
        final BigInteger m; final int k;
        N(BigInteger m, int k) { this.m = m; this.k = k; }
    }
    static final N QNAN = new N(null, 0);
    static N get(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        int s = ((IntValue) e[0]).val;
        if (s == 2) return QNAN;
        if (s == 0) return new N(BigInteger.ZERO, 0);
        int n = e.length - 2, ex = ((IntValue) e[1]).val;
        byte[] b = new byte[(n * W + 15) / 8 + 1];
        // big endian assembly via longs
        BigInteger r = BigInteger.ZERO;
        int i = 0;
        while (i < n) {
            long acc = 0; int c = 0;
            while (i < n && c < 4) { acc = (acc << W) | ((IntValue) e[i + 2]).val; i++; c++; }
            r = r.shiftLeft(W * c).or(BigInteger.valueOf(acc));
        }
        return new N(s < 0 ? r.negate() : r, ex - n);
    }
    static N norm(N x) {
        if (x.m == null || x.m.signum() == 0) return x;
        BigInteger a = x.m.abs();
        int n = (a.bitLength() + W - 1) / W, k = x.k;
        if (n > P) { a = a.shiftRight(W * (n - P)); k += n - P; return new N(x.m.signum() < 0 ? a.negate() : a, k); }
        return x;
    }
    static Value put(N x) {
        if (x.m == null) return NAN;
        int s = x.m.signum();
        if (s == 0) return ZERO;
        BigInteger a = x.m.abs();
        int n = (a.bitLength() + W - 1) / W, k = x.k;
        if (n > P) { a = a.shiftRight(W * (n - P)); k += n - P; n = P; }
        int e = k + n;
        int z = a.getLowestSetBit() / W;
        if (z > 0) { a = a.shiftRight(W * z); n -= z; }
        Value[] v = new Value[n + 2];
        v[0] = IntValue.gen(s); v[1] = IntValue.gen(e);
        for (int i = n - 1; i >= 0; i--) { v[i + 2] = IntValue.gen(a.intValue() & ((1 << W) - 1)); a = a.shiftRight(W); }
        return new TupleValue(v);
    }
    static int top(N x) { return x.k + (x.m.abs().bitLength() + W - 1) / W; }
    static N add(N x, N y) {
        if (x.m == null || y.m == null) return QNAN;
        if (x.m.signum() == 0) return y;
        if (y.m.signum() == 0) return x;
        int tx = top(x), ty = top(y);
        if (tx > ty + 2 * P + 1) return x;
        if (ty > tx + 2 * P + 1) return y;
        int k = Math.min(x.k, y.k);
        return norm(new N(x.m.shiftLeft(W * (x.k - k)).add(y.m.shiftLeft(W * (y.k - k))), k));
    }
    static N neg(N x) { return x.m == null ? x : new N(x.m.negate(), x.k); }
    static N mul(N x, N y) {
        if (x.m == null || y.m == null) return QNAN;
        return norm(new N(x.m.multiply(y.m), x.k + y.k));
    }
    static int limbs(BigInteger a) { return (a.abs().bitLength() + W - 1) / W; }
    static N div(N x, N y) {
        if (x.m == null || y.m == null || y.m.signum() == 0) return QNAN;
        if (x.m.signum() == 0) return x;
        int t = Math.max(0, P + 1 + limbs(y.m) - limbs(x.m));
        BigInteger q = x.m.abs().shiftLeft(W * t).divide(y.m.abs());
        return norm(new N(x.m.signum() * y.m.signum() < 0 ? q.negate() : q, x.k - y.k - t));
    }
    static N sqrt(N x) {
        if (x.m == null || x.m.signum() < 0) return QNAN;
        if (x.m.signum() == 0) return x;
        int t = 2 * P + 2 - limbs(x.m);
        if (Math.floorMod(x.k - t, 2) != 0) t++;
        BigInteger a = t >= 0 ? x.m.shiftLeft(W * t) : x.m.shiftRight(-W * t);
        return norm(new N(a.sqrt(), Math.floorDiv(x.k - t, 2)));
    }
    static N of(long n) { return new N(BigInteger.valueOf(n), 0); }
    static N pow(N x, int n) {
        if (n < 0) return div(of(1), pow(x, -n));
        if (n == 0) return of(1);
        N h = pow(x, n / 2), h2 = mul(h, h);
        return n % 2 == 0 ? h2 : mul(h2, x);
    }
    // ---- fixed point helpers for elementary functions
    static final int F = 240;
    static BigInteger fix(N x, int f) { int s = W * x.k + f; return s >= 0 ? x.m.shiftLeft(s) : x.m.shiftRight(-s); }
    static N unfix(BigInteger a, int f) {
        int k = -(f + W - 1) / W; return norm(new N(a.shiftLeft(-W * k - f), k));
    }
    static final BigInteger ONEF = BigInteger.ONE.shiftLeft(F);
    static BigInteger mf(BigInteger a, BigInteger b) { return a.multiply(b).shiftRight(F); }
    static BigInteger atanhf(BigInteger u) {
        BigInteger u2 = mf(u, u), t = u, s = u;
        for (int k = 3; t.signum() != 0 && k < 2000; k += 2) { t = mf(t, u2); if (t.equals(BigInteger.ONE.negate())) break; s = s.add(t.divide(BigInteger.valueOf(k))); }
        return s;
    }
    static BigInteger atanf(BigInteger u) {
        BigInteger u2 = mf(u, u), t = u, s = u; int sg = -1;
        for (int k = 3; t.signum() != 0 && k < 2000; k += 2, sg = -sg) { t = mf(t, u2); if (t.equals(BigInteger.ONE.negate())) break; s = s.add(t.multiply(BigInteger.valueOf(sg)).divide(BigInteger.valueOf(k))); }
        return s;
    }
    static final BigInteger LN2 = atanhf(ONEF.divide(BigInteger.valueOf(3))).shiftLeft(1);
    static final BigInteger PIF = atanf(ONEF.divide(BigInteger.valueOf(5))).shiftLeft(4)
        .subtract(atanf(ONEF.divide(BigInteger.valueOf(239))).shiftLeft(2));
    static N exp(N x) {
        if (x.m == null) return x;
        if (x.m.signum() != 0 && top(x) >= 2) return x.m.signum() > 0 ? QNAN : of(0);
        BigInteger a = fix(x, F);
        BigInteger n = a.divide(LN2);
        BigInteger r = a.subtract(n.multiply(LN2)).shiftRight(8);
        BigInteger t = ONEF, s = ONEF;
        for (int k = 1; k < 200; k++) { t = mf(t, r).divide(BigInteger.valueOf(k)); if (t.signum() == 0 || t.equals(BigInteger.ONE.negate())) break; s = s.add(t); }
        for (int i = 0; i < 8; i++) s = mf(s, s);
        int e = n.intValue();
        return unfix(s, F - e);
    }
    static N ln(N x) {
        if (x.m == null || x.m.signum() <= 0) return QNAN;
        int bl = x.m.bitLength();
        // m in [1/2,1): value = m * 2^(bl + W k)
        BigInteger m = bl <= F ? x.m.shiftLeft(F - bl) : x.m.shiftRight(bl - F);
        long e = bl + (long) W * x.k;
        if (m.compareTo(ONEF.multiply(BigInteger.valueOf(3)).shiftRight(2)) < 0) { m = m.shiftLeft(1); e--; }
        BigInteger u = m.subtract(ONEF).shiftLeft(F).divide(m.add(ONEF));
        // small results keep relative precision: F = 240 bits absolute vs 150 needed
        return unfix(atanhf(u).shiftLeft(1).add(LN2.multiply(BigInteger.valueOf(e))), F);
    }
    static BigInteger[] sincos(N x) {
        BigInteger a = fix(x, F);
        BigInteger hp = PIF.shiftRight(1);
        BigInteger q = a.divide(hp); BigInteger r = a.subtract(q.multiply(hp));
        BigInteger r2 = mf(r, r), t = ONEF, c = ONEF, s;
        for (int k = 1; k < 100; k++) { t = mf(t, r2).divide(BigInteger.valueOf((2L * k - 1) * 2 * k)).negate(); if (t.signum() == 0 || t.equals(BigInteger.ONE.negate())) break; c = c.add(t); }
        t = r; s = r;
        for (int k = 1; k < 100; k++) { t = mf(t, r2).divide(BigInteger.valueOf((2L * k + 1) * 2 * k)).negate(); if (t.signum() == 0 || t.equals(BigInteger.ONE.negate())) break; s = s.add(t); }
        switch (q.mod(BigInteger.valueOf(4)).intValue()) {
            case 0: return new BigInteger[] {s, c};
            case 1: return new BigInteger[] {c, s.negate()};
            case 2: return new BigInteger[] {s.negate(), c.negate()};
            default: return new BigInteger[] {c.negate(), s};
        }
    }
    static N atan(N x) {
        if (x.m == null || x.m.signum() == 0) return x;
        int n = 0; N u = x;
        while (top(u) >= 0 && fix(u, 20).abs().bitLength() > 17) {   // |u| >= 1/8
            u = div(u, add(of(1), sqrt(add(of(1), mul(u, u))))); n++;
        }
        if (top(u) < -20) return x;
        return unfix(atanf(fix(u, F)).shiftLeft(n), F);
    }
    // ---- overrides
    public static Value Neg(Value x) { return put(neg(get(x))); }
    public static Value Abs(Value x) { N a = get(x); return a.m == null ? NAN : put(new N(a.m.abs(), a.k)); }
    public static Value Add(Value x, Value y) { return put(add(get(x), get(y))); }
    public static Value Sub(Value x, Value y) { return put(add(get(x), neg(get(y)))); }
    public static Value Mul(Value x, Value y) { return put(mul(get(x), get(y))); }
    public static Value Div(Value x, Value y) { return put(div(get(x), get(y))); }
    public static Value Sqrt(Value x) { return put(sqrt(get(x))); }
    public static Value Cmp(Value x, Value y) {
        N d = add(get(x), neg(get(y)));
        return IntValue.gen(d.m == null ? 2 : d.m.signum());
    }
    public static Value I(Value n) { return put(of(((IntValue) n).val)); }
    public static Value Pow(Value x, Value n) { return put(pow(get(x), ((IntValue) n).val)); }
    static Value[] seq(Value s) { return ((TupleValue) s.toTuple()).elems; }
    public static Value Sum(Value s) {
        N r = of(0);
        for (Value v : seq(s)) r = add(r, get(v));
        return put(r);
    }
    public static Value Dot(Value s, Value t) {
        Value[] a = seq(s), b = seq(t);
        N r = of(0);
        for (int i = 0; i < a.length; i++) r = add(r, mul(get(a[i]), get(b[i])));
        return put(r);
    }
    public static Value Poly(Value c, Value x) {
        Value[] a = seq(c); N r = of(0), u = get(x);
        for (int i = a.length - 1; i >= 0; i--) r = add(get(a[i]), mul(u, r));
        return put(r);
    }
    public static Value Exp(Value x) { return put(exp(get(x))); }
    public static Value Ln(Value x) { return put(ln(get(x))); }
    static final Value PIV = put(unfix(PIF, F));
    public static Value Pi() { return PIV; }
    public static Value Cos(Value x) { N a = get(x); return a.m == null ? NAN : put(unfix(sincos(a)[1], F)); }
    public static Value Sin(Value x) { N a = get(x); return a.m == null ? NAN : put(unfix(sincos(a)[0], F)); }
    public static Value Atan(Value x) { return put(atan(get(x))); }
}
