import java.math.BigInteger;
import tlc2.value.impl.*;
import tlc2.value.IValue;

/** TLC module override of BigRat.tla: exact rational arithmetic on strings. */
public class BigRat {
    private static final class Q {
        final BigInteger n, d;
        Q(BigInteger n, BigInteger d) {
            if (d.signum() == 0) throw new ArithmeticException("BigRat: zero denominator");
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            if (!d.equals(BigInteger.ONE)) {
                BigInteger g = n.gcd(d);
                if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
            }
            this.n = n; this.d = d;
        }
    }
    private static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE);

    private static Q q(IValue v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
        String s = ((StringValue) v).val.toString();
        int k = s.indexOf('/');
        if (k < 0) return new Q(new BigInteger(s), BigInteger.ONE);
        return new Q(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
    }
    private static Value s(Q a) {
        return new StringValue(a.d.equals(BigInteger.ONE) ? a.n.toString() : a.n.toString() + "/" + a.d.toString());
    }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static Q add(Q a, Q b) {
        if (a.d.equals(b.d)) return new Q(a.n.add(b.n), a.d);
        return new Q(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }
    private static Q mul(Q a, Q b) {
        if (a.n.signum() == 0 || b.n.signum() == 0) return ZERO;
        return new Q(a.n.multiply(b.n), a.d.multiply(b.d));
    }
    private static Q neg(Q a) { return new Q(a.n.negate(), a.d); }
    private static int cmp(Q a, Q b) { return a.n.multiply(b.d).compareTo(b.n.multiply(a.d)); }

    private static Value[] seq(IValue v) {
        TupleValue t = (TupleValue) ((Value) v).toTuple();
        if (t == null) throw new RuntimeException("BigRat: not a sequence: " + v);
        return t.elems;
    }

    public static Value RAdd(Value a, Value b) { return s(add(q(a), q(b))); }
    public static Value RSub(Value a, Value b) { return s(add(q(a), neg(q(b)))); }
    public static Value RMul(Value a, Value b) { return s(mul(q(a), q(b))); }
    public static Value RDiv(Value a, Value b) { Q x = q(a), y = q(b); return s(new Q(x.n.multiply(y.d), x.d.multiply(y.n))); }
    public static Value RNeg(Value a) { return s(neg(q(a))); }
    public static Value RAbs(Value a) { Q x = q(a); return s(new Q(x.n.abs(), x.d)); }
    public static Value RLe(Value a, Value b) { return b(cmp(q(a), q(b)) <= 0); }
    public static Value RLt(Value a, Value b) { return b(cmp(q(a), q(b)) < 0); }
    public static Value RMax(Value a, Value b) { Q x = q(a), y = q(b); return s(cmp(x, y) >= 0 ? x : y); }
    public static Value RPow(Value a, Value n) { Q x = q(a); int k = ((IntValue) n).val; return s(new Q(x.n.pow(k), x.d.pow(k))); }
    public static Value RInt(Value i) { return s(q(i)); }
    public static Value RCanon(Value i) { return s(q(i)); }
    public static Value RFloor(Value a) {
        Q x = q(a); BigInteger[] r = x.n.divideAndRemainder(x.d);
        BigInteger f = r[1].signum() < 0 ? r[0].subtract(BigInteger.ONE) : r[0];
        return IntValue.gen(f.intValueExact());
    }
    public static Value RDot(Value a, Value b) {
        Value[] x = seq(a), y = seq(b);
        if (x.length != y.length) throw new RuntimeException("BigRat: RDot of sequences of length " + x.length + ", " + y.length);
        Q r = ZERO;
        for (int i = 0; i < x.length; i++) r = add(r, mul(q(x[i]), q(y[i])));
        return s(r);
    }
    public static Value RSum(Value a) { Q r = ZERO; for (Value v : seq(a)) r = add(r, q(v)); return s(r); }
    public static Value RProd(Value a) { Q r = new Q(BigInteger.ONE, BigInteger.ONE); for (Value v : seq(a)) r = mul(r, q(v)); return s(r); }
    public static Value RMaxAbs(Value a) {
        Q r = ZERO;
        for (Value v : seq(a)) { Q x = q(v); x = new Q(x.n.abs(), x.d); if (cmp(x, r) > 0) r = x; }
        return s(r);
    }

    /** Gauss-Jordan elimination: X with A X = B, or <<>> when A is singular. */
    public static Value RSolve(Value A, Value B) {
        Value[] ra = seq(A), rb = seq(B);
        int n = ra.length;
        if (n == 0) return new TupleValue(new Value[0]);
        int m = seq(rb[0]).length;
        Q[][] t = new Q[n][n + m];
        for (int i = 0; i < n; i++) {
            Value[] x = seq(ra[i]), y = seq(rb[i]);
            if (x.length != n || y.length != m) throw new RuntimeException("BigRat: RSolve shapes");
            for (int j = 0; j < n; j++) t[i][j] = q(x[j]);
            for (int j = 0; j < m; j++) t[i][n + j] = q(y[j]);
        }
        for (int c = 0; c < n; c++) {
            int p = -1;
            for (int i = c; i < n; i++) if (t[i][c].n.signum() != 0) { p = i; break; }
            if (p < 0) return new TupleValue(new Value[0]);
            Q[] tmp = t[c]; t[c] = t[p]; t[p] = tmp;
            Q piv = new Q(t[c][c].d, t[c][c].n);
            for (int j = c; j < n + m; j++) t[c][j] = mul(t[c][j], piv);
            for (int i = 0; i < n; i++) if (i != c && t[i][c].n.signum() != 0) {
                Q f = neg(t[i][c]);
                for (int j = c; j < n + m; j++) t[i][j] = add(t[i][j], mul(f, t[c][j]));
            }
        }
        Value[] rows = new Value[n];
        for (int i = 0; i < n; i++) {
            Value[] r = new Value[m];
            for (int j = 0; j < m; j++) r[j] = s(t[i][n + j]);
            rows[i] = new TupleValue(r);
        }
        return new TupleValue(rows);
    }

    // ---- correctly rounded to ~1 ulp: the double nearest the real value ----
    private static double dbl(Value a) {
        Q x = q(a);
        return new java.math.BigDecimal(x.n).divide(new java.math.BigDecimal(x.d),
               new java.math.MathContext(40)).doubleValue();
    }
    private static Value fromDouble(double d) {
        if (Double.isNaN(d) || Double.isInfinite(d)) throw new ArithmeticException("BigRat: not finite");
        java.math.BigDecimal b = new java.math.BigDecimal(d);
        BigInteger u = b.unscaledValue(); int sc = b.scale();
        return s(sc > 0 ? new Q(u, BigInteger.TEN.pow(sc)) : new Q(u.multiply(BigInteger.TEN.pow(-sc)), BigInteger.ONE));
    }
    public static Value RExp(Value a)  { return fromDouble(Math.exp(dbl(a))); }
    public static Value RLog(Value a)  { return fromDouble(Math.log(dbl(a))); }
    public static Value RSqrt(Value a) { return fromDouble(Math.sqrt(dbl(a))); }
    public static Value RSin(Value a)  { return fromDouble(Math.sin(dbl(a))); }
    public static Value RCos(Value a)  { return fromDouble(Math.cos(dbl(a))); }
    public static Value RTan(Value a)  { return fromDouble(Math.tan(dbl(a))); }
    public static Value RTanh(Value a) { return fromDouble(Math.tanh(dbl(a))); }
    public static Value RPowR(Value a, Value b) { return fromDouble(Math.pow(dbl(a), dbl(b))); }
    /** the rational rounded to a double (to keep long recurrences short) */
    public static Value RRound(Value a) { return fromDouble(dbl(a)); }
    public static Value RPi() { return fromDouble(Math.PI); }
}
