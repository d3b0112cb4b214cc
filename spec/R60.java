// TLC module override for R60.tla: decimal arithmetic with 60 significant
// digits on strings.  Non-finite values are "nan", "inf" and "-inf" and follow
// IEEE 754 rules.  Only the operators marked "(override)" in R60.tla are
// defined here; everything else in the specification is plain TLA+.
import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.*;

public class R60 {
    static final MathContext MC = new MathContext(60, RoundingMode.HALF_EVEN);
    static final BigDecimal ZERO = BigDecimal.ZERO;

    static final class N {
        final BigDecimal v; final int k; // k: 0 finite, 1 +inf, -1 -inf, 2 nan
        N(BigDecimal v) { this.v = v; this.k = 0; }
        N(int k) { this.v = null; this.k = k; }
        int sgn() { return k == 0 ? v.signum() : (k == 2 ? 0 : k); }
        boolean fin() { return k == 0; }
    }
    static final N NAN = new N(2), PINF = new N(1), NINF = new N(-1), NZERO = new N(ZERO);

    static N p(Value x) {
        if (x instanceof IntValue) return new N(new BigDecimal(((IntValue) x).val));
        String s = ((StringValue) x.normalize()).val.toString();
        switch (s) {
            case "nan": return NAN;
            case "inf": return PINF;
            case "-inf": return NINF;
            case "0": return NZERO;
        }
        return new N(new BigDecimal(s));
    }
    static Value o(N n) {
        if (n.k == 2) return new StringValue("nan");
        if (n.k == 1) return new StringValue("inf");
        if (n.k == -1) return new StringValue("-inf");
        if (n.v.signum() == 0) return new StringValue("0");
        BigDecimal r = n.v.round(MC).stripTrailingZeros();
        int e = r.precision() - r.scale();
        return new StringValue(e > -6 && e < 25 ? r.toPlainString() : r.toString());
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static N add(N a, N c) {
        if (a.fin() && c.fin()) return new N(a.v.add(c.v, MC));
        if (a.k == 2 || c.k == 2) return NAN;
        if (!a.fin() && !c.fin()) return a.k == c.k ? a : NAN;
        return a.fin() ? c : a;
    }
    static N neg(N a) { return a.fin() ? new N(a.v.negate()) : a.k == 2 ? a : a.k == 1 ? NINF : PINF; }
    static N mul(N a, N c) {
        if (a.fin() && c.fin()) return new N(a.v.multiply(c.v, MC));
        if (a.k == 2 || c.k == 2) return NAN;
        int s = a.sgn() * c.sgn();
        return s == 0 ? NAN : s > 0 ? PINF : NINF;
    }
    static N div(N a, N c) {
        if (a.k == 2 || c.k == 2) return NAN;
        if (c.fin()) {
            if (c.v.signum() == 0) { int s = a.sgn(); return s == 0 ? NAN : s > 0 ? PINF : NINF; }
            if (a.fin()) return new N(a.v.divide(c.v, MC));
            return a.sgn() * c.sgn() > 0 ? PINF : NINF;
        }
        return a.fin() ? NZERO : NAN;
    }
    static N sqrt(N a) {
        if (a.k == 1) return a;
        if (!a.fin() || a.v.signum() < 0) return NAN;
        return a.v.signum() == 0 ? NZERO : new N(a.v.sqrt(MC));
    }
    static N abs(N a) { return a.fin() ? new N(a.v.abs()) : a.k == 2 ? a : PINF; }
    // comparison; returns -2 if unordered
    static int cmp(N a, N c) {
        if (a.k == 2 || c.k == 2) return -2;
        if (a.fin() && c.fin()) return a.v.compareTo(c.v);
        if (!a.fin() && !c.fin()) return Integer.compare(a.k, c.k);
        return a.fin() ? -c.k : a.k;
    }
    static N[] vec(Value x) {
        Value t = x.toTuple();
        if (t == null) throw new RuntimeException("not a vector: " + x);
        Value[] e = ((TupleValue) t).elems;
        N[] r = new N[e.length];
        for (int i = 0; i < r.length; i++) r[i] = p(e[i]);
        return r;
    }
    static N[][] mat(Value x) {
        Value t = x.toTuple();
        if (t == null) throw new RuntimeException("not a matrix: " + x);
        Value[] e = ((TupleValue) t).elems;
        N[][] r = new N[e.length][];
        for (int i = 0; i < r.length; i++) r[i] = vec(e[i]);
        return r;
    }
    static Value ov(N[] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < e.length; i++) e[i] = o(a[i]);
        return new TupleValue(e);
    }
    static Value om(N[][] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < e.length; i++) e[i] = ov(a[i]);
        return new TupleValue(e);
    }
    static N dot(N[] a, N[] c) {
        if (a.length != c.length) throw new RuntimeException("length mismatch");
        N r = NZERO;
        for (int i = 0; i < a.length; i++) r = add(r, mul(a[i], c[i]));
        return r;
    }

    public static Value RAdd(Value a, Value c) { return o(add(p(a), p(c))); }
    public static Value RSub(Value a, Value c) { return o(add(p(a), neg(p(c)))); }
    public static Value RMul(Value a, Value c) { return o(mul(p(a), p(c))); }
    public static Value RDiv(Value a, Value c) { return o(div(p(a), p(c))); }
    public static Value RNeg(Value a) { return o(neg(p(a))); }
    public static Value RAbs(Value a) { return o(abs(p(a))); }
    public static Value RSqrt(Value a) { return o(sqrt(p(a))); }
    public static Value RLe(Value a, Value c) { int r = cmp(p(a), p(c)); return b(r == -1 || r == 0); }
    public static Value RLt(Value a, Value c) { return b(cmp(p(a), p(c)) == -1); }
    public static Value REq(Value a, Value c) { return b(cmp(p(a), p(c)) == 0); }
    public static Value RFin(Value a) { return b(p(a).fin()); }
    public static Value RIsNan(Value a) { return b(p(a).k == 2); }
    public static Value RSgn(Value a) { return IntValue.gen(p(a).sgn()); }
    public static Value RInt(Value a) { return o(p(a)); }
    // spacing of double precision numbers around |a|
    public static Value RUlp(Value a) {
        N n = p(a);
        if (!n.fin()) return o(NAN);
        return o(new N(new BigDecimal(Math.ulp(n.v.doubleValue()))));
    }
    // the real number denoted by the double that is closest to a
    public static Value RDbl(Value a) {
        N n = p(a);
        if (!n.fin()) return o(n);
        double d = n.v.doubleValue();
        if (Double.isInfinite(d)) return o(d > 0 ? PINF : NINF);
        return o(new N(new BigDecimal(d)));
    }

    public static Value VDot(Value a, Value c) { return o(dot(vec(a), vec(c))); }
    public static Value VNorm(Value a) { N[] x = vec(a); return o(sqrt(dot(x, x))); }
    public static Value VNormInf(Value a) {
        N r = NZERO;
        for (N x : vec(a)) { if (x.k == 2) return o(NAN); N y = abs(x); if (cmp(y, r) > 0) r = y; }
        return o(r);
    }
    public static Value VAdd(Value a, Value c) {
        N[] x = vec(a), y = vec(c);
        for (int i = 0; i < x.length; i++) x[i] = add(x[i], y[i]);
        return ov(x);
    }
    public static Value VSub(Value a, Value c) {
        N[] x = vec(a), y = vec(c);
        for (int i = 0; i < x.length; i++) x[i] = add(x[i], neg(y[i]));
        return ov(x);
    }
    public static Value VMul(Value a, Value c) {
        N[] x = vec(a), y = vec(c);
        for (int i = 0; i < x.length; i++) x[i] = mul(x[i], y[i]);
        return ov(x);
    }
    public static Value VScl(Value c, Value a) {
        N[] x = vec(a); N s = p(c);
        for (int i = 0; i < x.length; i++) x[i] = mul(s, x[i]);
        return ov(x);
    }
    public static Value VAbs(Value a) {
        N[] x = vec(a);
        for (int i = 0; i < x.length; i++) x[i] = abs(x[i]);
        return ov(x);
    }
    static N dbl(N n) {
        if (!n.fin()) return n;
        double d = n.v.doubleValue();
        return Double.isInfinite(d) ? (d > 0 ? PINF : NINF) : new N(new BigDecimal(d));
    }
    // element-wise RDbl
    public static Value VDbl(Value a) {
        N[] x = vec(a);
        for (int i = 0; i < x.length; i++) x[i] = dbl(x[i]);
        return ov(x);
    }
    public static Value MDbl(Value m) {
        N[][] x = mat(m);
        for (int i = 0; i < x.length; i++) for (int j = 0; j < x[i].length; j++) x[i][j] = dbl(x[i][j]);
        return om(x);
    }
    public static Value VFin(Value a) {
        for (N x : vec(a)) if (!x.fin()) return b(false);
        return b(true);
    }
    public static Value MV(Value m, Value a) {
        N[][] x = mat(m); N[] y = vec(a); N[] r = new N[x.length];
        for (int i = 0; i < r.length; i++) r[i] = dot(x[i], y);
        return ov(r);
    }
    public static Value MTV(Value m, Value a) {
        N[][] x = mat(m); N[] y = vec(a);
        if (x.length != y.length) throw new RuntimeException("length mismatch");
        N[] r = new N[x.length == 0 ? 0 : x[0].length];
        for (int j = 0; j < r.length; j++) {
            N s = NZERO;
            for (int i = 0; i < x.length; i++) s = add(s, mul(x[i][j], y[i]));
            r[j] = s;
        }
        return ov(r);
    }
    public static Value MAdd(Value m, Value c) {
        N[][] x = mat(m), y = mat(c);
        for (int i = 0; i < x.length; i++) for (int j = 0; j < x[i].length; j++) x[i][j] = add(x[i][j], y[i][j]);
        return om(x);
    }
    public static Value MSub(Value m, Value c) {
        N[][] x = mat(m), y = mat(c);
        for (int i = 0; i < x.length; i++) for (int j = 0; j < x[i].length; j++) x[i][j] = add(x[i][j], neg(y[i][j]));
        return om(x);
    }
    public static Value MScl(Value c, Value m) {
        N[][] x = mat(m); N s = p(c);
        for (int i = 0; i < x.length; i++) for (int j = 0; j < x[i].length; j++) x[i][j] = mul(s, x[i][j]);
        return om(x);
    }
    public static Value MOuter(Value a, Value c) {
        N[] x = vec(a), y = vec(c); N[][] r = new N[x.length][y.length];
        for (int i = 0; i < x.length; i++) for (int j = 0; j < y.length; j++) r[i][j] = mul(x[i], y[j]);
        return om(r);
    }
    // largest absolute entry
    public static Value MMax(Value m) {
        N r = NZERO;
        for (N[] row : mat(m)) for (N x : row) { if (x.k == 2) return o(NAN); N y = abs(x); if (cmp(y, r) > 0) r = y; }
        return o(r);
    }
    public static Value MFin(Value m) {
        for (N[] row : mat(m)) for (N x : row) if (!x.fin()) return b(false);
        return b(true);
    }
    // m is positive semidefinite: symmetric elimination with diagonal pivoting
    public static Value MPsd(Value m) {
        N[][] x = mat(m); int n = x.length;
        BigDecimal[][] a = new BigDecimal[n][n];
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
            if (!x[i][j].fin() || !x[j][i].fin()) return b(false);
            a[i][j] = x[i][j].v.add(x[j][i].v);
        }
        boolean[] done = new boolean[n];
        for (int s = 0; s < n; s++) {
            int q = -1;
            for (int i = 0; i < n; i++) if (!done[i] && (q < 0 || a[i][i].compareTo(a[q][q]) > 0)) q = i;
            int sg = a[q][q].signum();
            if (sg < 0) return b(false);
            if (sg == 0) {
                for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
                    if (!done[i] && !done[j] && a[i][j].signum() != 0) return b(false);
                return b(true);
            }
            done[q] = true;
            for (int i = 0; i < n; i++) if (!done[i]) {
                BigDecimal f = a[i][q].divide(a[q][q], MC);
                for (int j = 0; j < n; j++) if (!done[j]) a[i][j] = a[i][j].subtract(f.multiply(a[q][j], MC), MC);
            }
        }
        return b(true);
    }
}
