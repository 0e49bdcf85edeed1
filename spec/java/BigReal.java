package verif;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.util.HashMap;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Java meaning of the operators of BigReal.tla. */
public class BigReal {
    static final int LIMIT = 1500, KEEP = 320;
    static final BigInteger ONE = BigInteger.ONE;

    static final class R {
        final BigInteger n, d;
        R(BigInteger n, BigInteger d) {
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            BigInteger g = n.gcd(d);
            if (!g.equals(ONE) && g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
            if (n.bitLength() > LIMIT && d.bitLength() > LIMIT) {
                int s = Math.min(n.bitLength(), d.bitLength()) - KEEP;
                n = n.shiftRight(s); d = d.shiftRight(s);
                g = n.gcd(d);
                if (!g.equals(ONE) && g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
            } else if (d.bitLength() > LIMIT) {
                // small number with a long denominator
                int s = d.bitLength() - KEEP;
                if (n.bitLength() > KEEP) {
                    int t = Math.min(s, n.bitLength() - KEEP);
                    n = n.shiftRight(t); d = d.shiftRight(t);
                }
            }
            this.n = n; this.d = d;
        }
        public String toString() { return d.equals(ONE) ? n.toString() : n + "/" + d; }
        int cmp(R o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
        R add(R o) { return new R(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
        R sub(R o) { return new R(n.multiply(o.d).subtract(o.n.multiply(d)), d.multiply(o.d)); }
        R mul(R o) { return new R(n.multiply(o.n), d.multiply(o.d)); }
        R div(R o) {
            if (o.n.signum() == 0) throw new RuntimeException("BigReal: division by zero");
            return new R(n.multiply(o.d), d.multiply(o.n));
        }
        R abs() { return new R(n.abs(), d); }
        R neg() { return new R(n.negate(), d); }
        double dbl() {
            int sh = 0;
            // scale to 1100-bit quotient precision
            BigInteger a = n.abs();
            if (a.signum() == 0) return 0;
            int k = a.bitLength() - d.bitLength();
            int want = 80 - k;
            BigInteger q = want >= 0 ? a.shiftLeft(want).divide(d) : a.divide(d.shiftLeft(-want));
            double r = scalb(q.doubleValue(), -want);
            return n.signum() < 0 ? -r : r;
        }
        double ln() {
            if (n.signum() <= 0) throw new RuntimeException("BigReal: ln of " + this);
            int k = n.bitLength() - d.bitLength();
            R m = k >= 0 ? new R(n, d.shiftLeft(k)) : new R(n.shiftLeft(-k), d);
            // m in (1/2, 2)
            double e = m.sub(new R(ONE, ONE)).dbl();
            return Math.log1p(e) + k * LN2;
        }
    }
    static final double LN2 = 0.693147180559945309417232;

    static double scalb(double x, int e) {
        while (e > 1000) { x *= 0x1p1000; e -= 1000; }
        while (e < -1000) { x *= 0x1p-1000; e += 1000; }
        return Math.scalb(x, e);
    }

    static final HashMap<String, R> cache = new HashMap<>();

    static boolean fin(String s) {
        char c = s.isEmpty() ? 'x' : s.charAt(s.length() - 1);
        return Character.isDigit(c) || c == '.';
    }

    static synchronized R parse(String s) {
        R r = cache.get(s);
        if (r != null) return r;
        r = parse0(s);
        if (cache.size() > 200000) cache.clear();
        cache.put(s, r);
        return r;
    }

    static R parse0(String s) {
        int i = s.indexOf('/');
        if (i >= 0) return new R(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
        if (!fin(s)) throw new RuntimeException("BigReal: not a finite number: " + s);
        if (s.indexOf('.') < 0 && s.indexOf('e') < 0 && s.indexOf('E') < 0)
            return new R(new BigInteger(s), ONE);
        BigDecimal b = new BigDecimal(s);
        return b.scale() <= 0 ? new R(b.toBigIntegerExact(), ONE)
            : new R(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
    }

    static R fromDouble(double x) {
        if (Double.isNaN(x) || Double.isInfinite(x)) throw new RuntimeException("BigReal: not finite");
        // keep numerals short: 2^-60 absolute or full precision for tiny numbers
        BigDecimal b = new BigDecimal(x);
        if (Math.abs(x) >= 1e-3) b = b.setScale(18, java.math.RoundingMode.HALF_EVEN);
        else b = b.round(new MathContext(20));
        return b.scale() <= 0 ? new R(b.toBigInteger(), ONE)
            : new R(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
    }

    static String str(Value v) {
        if (v instanceof StringValue) return ((StringValue) v).getVal().toString();
        if (v instanceof IntValue) return Integer.toString(((IntValue) v).val);
        throw new RuntimeException("BigReal: expected a numeral, got " + v);
    }
    static R r(Value v) { return parse(str(v)); }
    static Value s(R r) { return new StringValue(r.toString()); }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "RAdd", module = "BigReal", warn = false)
    public static Value add(Value x, Value y) { return s(r(x).add(r(y))); }
    @TLAPlusOperator(identifier = "RSub", module = "BigReal", warn = false)
    public static Value sub(Value x, Value y) { return s(r(x).sub(r(y))); }
    @TLAPlusOperator(identifier = "RMul", module = "BigReal", warn = false)
    public static Value mul(Value x, Value y) { return s(r(x).mul(r(y))); }
    @TLAPlusOperator(identifier = "RDiv", module = "BigReal", warn = false)
    public static Value div(Value x, Value y) { return s(r(x).div(r(y))); }
    @TLAPlusOperator(identifier = "RNeg", module = "BigReal", warn = false)
    public static Value neg(Value x) { return s(r(x).neg()); }
    @TLAPlusOperator(identifier = "RAbs", module = "BigReal", warn = false)
    public static Value abs(Value x) { return s(r(x).abs()); }
    @TLAPlusOperator(identifier = "RMax", module = "BigReal", warn = false)
    public static Value max(Value x, Value y) { return r(x).cmp(r(y)) >= 0 ? s(r(x)) : s(r(y)); }
    @TLAPlusOperator(identifier = "RMin", module = "BigReal", warn = false)
    public static Value min(Value x, Value y) { return r(x).cmp(r(y)) <= 0 ? s(r(x)) : s(r(y)); }
    @TLAPlusOperator(identifier = "RSum", module = "BigReal", warn = false)
    public static Value sum(Value seq) {
        R a = new R(BigInteger.ZERO, ONE);
        TupleValue t = (TupleValue) seq.toTuple();
        Value[] vs = t != null ? t.elems : ((FcnRcdValue) seq.toFcnRcd()).values;
        for (Value v : vs) a = a.add(r(v));
        return s(a);
    }
    // unsigned Stirling numbers of the first kind: <<S(n, 0), ..., S(n, n)>>
    @TLAPlusOperator(identifier = "RStirling", module = "BigReal", warn = false)
    public static Value stirling(Value n) {
        int N = ((IntValue) n).val;
        BigInteger[] row = {ONE};
        for (int m = 1; m <= N; ++m) {
            BigInteger[] next = new BigInteger[m + 1];
            for (int k = 0; k <= m; ++k) {
                BigInteger a = k < m ? row[k].multiply(BigInteger.valueOf(m - 1)) : BigInteger.ZERO;
                next[k] = k > 0 ? a.add(row[k - 1]) : a;
            }
            row = next;
        }
        Value[] v = new Value[N + 1];
        for (int k = 0; k <= N; ++k) v[k] = s(new R(row[k], ONE));
        return new TupleValue(v);
    }
    // the function that maps each ks[i] to vs[i]
    @TLAPlusOperator(identifier = "RFcn", module = "BigReal", warn = false)
    public static Value fcn(Value ks, Value vs) {
        Value[] k = ((TupleValue) ks.toTuple()).elems, v = ((TupleValue) vs.toTuple()).elems;
        java.util.LinkedHashMap<Value, Value> map = new java.util.LinkedHashMap<>();
        for (int i = 0; i < k.length; ++i) map.put(k[i], v[i]);
        return new FcnRcdValue(map.keySet().toArray(new Value[0]), map.values().toArray(new Value[0]), false).normalize();
    }
    @TLAPlusOperator(identifier = "RInt", module = "BigReal", warn = false)
    public static Value rint(Value x) { return s(r(x)); }
    @TLAPlusOperator(identifier = "RNorm", module = "BigReal", warn = false)
    public static Value norm(Value x) { return s(r(x)); }
    @TLAPlusOperator(identifier = "RToInt", module = "BigReal", warn = false)
    public static Value toint(Value x) {
        R a = r(x);
        if (!a.d.equals(ONE)) throw new RuntimeException("BigReal: not an integer: " + a);
        return IntValue.gen(a.n.intValueExact());
    }
    @TLAPlusOperator(identifier = "RFloor", module = "BigReal", warn = false)
    public static Value floor(Value x) {
        R a = r(x);
        BigInteger[] q = a.n.divideAndRemainder(a.d);
        return s(new R(q[1].signum() < 0 ? q[0].subtract(ONE) : q[0], ONE));
    }
    @TLAPlusOperator(identifier = "RPow2", module = "BigReal", warn = false)
    public static Value pow2(Value x) {
        int e = ((IntValue) x).val;
        return s(e >= 0 ? new R(ONE.shiftLeft(e), ONE) : new R(ONE, ONE.shiftLeft(-e)));
    }
    @TLAPlusOperator(identifier = "RLn", module = "BigReal", warn = false)
    public static Value ln(Value x) { return s(fromDouble(r(x).ln())); }
    @TLAPlusOperator(identifier = "RExp", module = "BigReal", warn = false)
    public static Value exp(Value x) { return s(fromDouble(Math.exp(r(x).dbl()))); }
    @TLAPlusOperator(identifier = "RSqrt", module = "BigReal", warn = false)
    public static Value sqrt(Value x) { return s(fromDouble(Math.sqrt(r(x).dbl()))); }
    @TLAPlusOperator(identifier = "RLnGamma", module = "BigReal", warn = false)
    public static Value lngamma(Value x) {
        String key = str(x);
        Value v = lgcache.get(key);
        if (v == null) {
            v = s(fromDouble(lgamma(parse(key).dbl())));
            if (lgcache.size() > 100000) lgcache.clear();
            lgcache.put(key, v);
        }
        return v;
    }
    static final java.util.concurrent.ConcurrentHashMap<String, Value> lgcache = new java.util.concurrent.ConcurrentHashMap<>();

    static double lgamma(double x) {
        if (!(x > 0)) throw new RuntimeException("BigReal: lgamma of " + x);
        double shift = 0;
        // product of at most 15 factors, grouped to lose no accuracy
        double p = 1;
        while (x < 15) {
            p *= x; x += 1;
            if (p > 1e200 || p < 1e-200) { shift += Math.log(p); p = 1; }
        }
        shift += Math.log(p);
        double z = 1 / (x * x);
        double ser = (1.0 / 12 - z * (1.0 / 360 - z * (1.0 / 1260 - z * (1.0 / 1680
            - z * (1.0 / 1188 - z * (691.0 / 360360 - z * (1.0 / 156))))))) / x;
        return (x - 0.5) * Math.log(x) - x + 0.918938533204672741780329736406 + ser - shift;
    }

    @TLAPlusOperator(identifier = "RErf", module = "BigReal", warn = false)
    public static Value erf(Value x) {
        double t = r(x).dbl();
        double p = t == 0 ? 0 : gammaP(0.5, t * t);
        return s(fromDouble(t < 0 ? -p : p));
    }
    @TLAPlusOperator(identifier = "RGammaP", module = "BigReal", warn = false)
    public static Value rgammap(Value a, Value x) { return s(fromDouble(gammaP(r(a).dbl(), r(x).dbl()))); }
    @TLAPlusOperator(identifier = "RBetaI", module = "BigReal", warn = false)
    public static Value rbetai(Value a, Value b, Value x) {
        return s(fromDouble(betaI(r(a).dbl(), r(b).dbl(), r(x).dbl())));
    }

    static double gammaP(double a, double x) {
        if (x <= 0) return 0;
        double lg = a * Math.log(x) - x - lgamma(a);
        if (x < a + 1) {
            double sum = 1 / a, del = sum, ap = a;
            for (int i = 0; i < 100000; i++) {
                ap += 1; del *= x / ap; sum += del;
                if (Math.abs(del) < Math.abs(sum) * 1e-17) break;
            }
            return sum * Math.exp(lg);
        }
        double bb = x + 1 - a, c = 1e300, d = 1 / bb, h = d;
        for (int i = 1; i < 100000; i++) {
            double an = -i * (i - a);
            bb += 2;
            d = an * d + bb; if (Math.abs(d) < 1e-300) d = 1e-300;
            c = bb + an / c; if (Math.abs(c) < 1e-300) c = 1e-300;
            d = 1 / d;
            double del = d * c;
            h *= del;
            if (Math.abs(del - 1) < 1e-16) break;
        }
        return 1 - Math.exp(lg) * h;
    }
    static double betaI(double a, double b, double x) {
        if (x <= 0) return 0;
        if (x >= 1) return 1;
        double bt = Math.exp(lgamma(a + b) - lgamma(a) - lgamma(b) + a * Math.log(x) + b * Math.log1p(-x));
        if (x < (a + 1) / (a + b + 2)) return bt * betacf(a, b, x) / a;
        return 1 - bt * betacf(b, a, 1 - x) / b;
    }
    static double betacf(double a, double b, double x) {
        double qab = a + b, qap = a + 1, qam = a - 1, c = 1, d = 1 - qab * x / qap;
        if (Math.abs(d) < 1e-300) d = 1e-300;
        d = 1 / d;
        double h = d;
        for (int m = 1; m < 100000; m++) {
            int m2 = 2 * m;
            double aa = m * (b - m) * x / ((qam + m2) * (a + m2));
            d = 1 + aa * d; if (Math.abs(d) < 1e-300) d = 1e-300;
            c = 1 + aa / c; if (Math.abs(c) < 1e-300) c = 1e-300;
            d = 1 / d; h *= d * c;
            aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
            d = 1 + aa * d; if (Math.abs(d) < 1e-300) d = 1e-300;
            c = 1 + aa / c; if (Math.abs(c) < 1e-300) c = 1e-300;
            d = 1 / d;
            double del = d * c;
            h *= del;
            if (Math.abs(del - 1) < 1e-16) break;
        }
        return h;
    }

    @TLAPlusOperator(identifier = "RF32", module = "BigReal", warn = false)
    public static Value f32(Value x) { return s(parse0(new BigDecimal((double) (float) r(x).dbl()).toPlainString())); }
    @TLAPlusOperator(identifier = "RShow", module = "BigReal", warn = false)
    public static Value show(Value x) {
        String t = str(x);
        if (!fin(t)) return new StringValue(t);
        return new StringValue(Double.toString(parse(t).dbl()));
    }
    @TLAPlusOperator(identifier = "RLt", module = "BigReal", warn = false)
    public static Value lt(Value x, Value y) { return b(r(x).cmp(r(y)) < 0); }
    @TLAPlusOperator(identifier = "RLe", module = "BigReal", warn = false)
    public static Value le(Value x, Value y) { return b(r(x).cmp(r(y)) <= 0); }
    @TLAPlusOperator(identifier = "REq", module = "BigReal", warn = false)
    public static Value eq(Value x, Value y) { return b(r(x).cmp(r(y)) == 0); }
    @TLAPlusOperator(identifier = "RFin", module = "BigReal", warn = false)
    public static Value rfin(Value x) { return b(x instanceof IntValue || fin(str(x))); }
    @TLAPlusOperator(identifier = "RClose", module = "BigReal", warn = false)
    public static Value close(Value x, Value y, Value a, Value rel) {
        if (!(x instanceof IntValue) && !fin(str(x))) return BoolValue.ValFalse;
        R o = r(x), e = r(y);
        R diff = o.sub(e).abs(), tol = r(a).add(r(rel).mul(e.abs()));
        boolean ok = diff.cmp(tol) <= 0;
        if (STATS) stats(diff.dbl() / Math.max(tol.dbl(), 1e-300));
        return b(ok);
    }
    static final boolean STATS = System.getProperty("verif.stats") != null;
    static double worst = 0;
    static synchronized void stats(double q) {
        if (q > worst) { worst = q; System.err.println("RClose worst ratio " + q); }
    }
}
