import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/** Evaluates the operators of Float64.tla with Java doubles (IEEE-754 binary64). */
public class Float64Overrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() { return new Class[] { Float64Overrides.class }; }

    // ---------------------------------------------------------------- conversions
    static double d(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        return Double.longBitsToDouble(((long) ((IntValue) e[0]).val << 32) | (((IntValue) e[1]).val & 0xffffffffL));
    }
    static Value v(double x) {
        if (x != x) x = Double.NaN;
        long b = Double.doubleToRawLongBits(x);
        return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
    }
    static double[] vec(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        double[] r = new double[e.length];
        for (int i = 0; i < r.length; i++) r[i] = d(e[i]);
        return r;
    }
    static Value vec(double[] x) {
        Value[] e = new Value[x.length];
        for (int i = 0; i < e.length; i++) e[i] = v(x[i]);
        return new TupleValue(e);
    }
    static double[][] mat(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        double[][] r = new double[e.length][];
        for (int i = 0; i < r.length; i++) r[i] = vec(e[i]);
        return r;
    }
    static Value mat(double[][] x) {
        Value[] e = new Value[x.length];
        for (int i = 0; i < e.length; i++) e[i] = vec(x[i]);
        return new TupleValue(e);
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static int i(Value v) { return ((IntValue) v).val; }

    // ---------------------------------------------------------------- scalars
    @TLAPlusOperator(identifier = "F", module = "Float64Scalar", warn = false)
    public static Value f(final StringValue s) {
        String t = s.val.toString();
        if (t.equals("inf")) return v(Double.POSITIVE_INFINITY);
        if (t.equals("-inf")) return v(Double.NEGATIVE_INFINITY);
        return v(Double.parseDouble(t));
    }
    @TLAPlusOperator(identifier = "FOfInt", module = "Float64Scalar", warn = false)
    public static Value fofint(final IntValue x) { return v((double) x.val); }
    @TLAPlusOperator(identifier = "FToInt", module = "Float64Scalar", warn = false)
    public static Value ftoint(final Value a) { return IntValue.gen((int) d(a)); }
    @TLAPlusOperator(identifier = "FText", module = "Float64Scalar", warn = false)
    public static Value ftext(final Value a) { return new StringValue(Double.toString(d(a))); }
    @TLAPlusOperator(identifier = "FAdd", module = "Float64Scalar", warn = false)
    public static Value fadd(final Value a, final Value b) { return v(d(a) + d(b)); }
    @TLAPlusOperator(identifier = "FSub", module = "Float64Scalar", warn = false)
    public static Value fsub(final Value a, final Value b) { return v(d(a) - d(b)); }
    @TLAPlusOperator(identifier = "FMul", module = "Float64Scalar", warn = false)
    public static Value fmul(final Value a, final Value b) { return v(d(a) * d(b)); }
    @TLAPlusOperator(identifier = "FDiv", module = "Float64Scalar", warn = false)
    public static Value fdiv(final Value a, final Value b) { return v(d(a) / d(b)); }
    @TLAPlusOperator(identifier = "FNeg", module = "Float64Scalar", warn = false)
    public static Value fneg(final Value a) { return v(-d(a)); }
    @TLAPlusOperator(identifier = "FAbs", module = "Float64Scalar", warn = false)
    public static Value fabs(final Value a) { return v(Math.abs(d(a))); }
    @TLAPlusOperator(identifier = "FSqrt", module = "Float64Scalar", warn = false)
    public static Value fsqrt(final Value a) { return v(Math.sqrt(d(a))); }
    @TLAPlusOperator(identifier = "FExp", module = "Float64Scalar", warn = false)
    public static Value fexp(final Value a) { return v(Math.exp(d(a))); }
    @TLAPlusOperator(identifier = "FLn", module = "Float64Scalar", warn = false)
    public static Value fln(final Value a) { return v(Math.log(d(a))); }
    @TLAPlusOperator(identifier = "FPow", module = "Float64Scalar", warn = false)
    public static Value fpow(final Value a, final Value b) { return v(Math.pow(d(a), d(b))); }
    @TLAPlusOperator(identifier = "FFloor", module = "Float64Scalar", warn = false)
    public static Value ffloor(final Value a) { return v(Math.floor(d(a))); }
    @TLAPlusOperator(identifier = "FCeil", module = "Float64Scalar", warn = false)
    public static Value fceil(final Value a) { return v(Math.ceil(d(a))); }
    @TLAPlusOperator(identifier = "FLt", module = "Float64Scalar", warn = false)
    public static Value flt(final Value a, final Value b) { return b(d(a) < d(b)); }
    @TLAPlusOperator(identifier = "FLe", module = "Float64Scalar", warn = false)
    public static Value fle(final Value a, final Value b) { return b(d(a) <= d(b)); }
    @TLAPlusOperator(identifier = "FEq", module = "Float64Scalar", warn = false)
    public static Value feq(final Value a, final Value b) { return b(d(a) == d(b)); }
    @TLAPlusOperator(identifier = "FIsNaN", module = "Float64Scalar", warn = false)
    public static Value fisnan(final Value a) { return b(Double.isNaN(d(a))); }
    @TLAPlusOperator(identifier = "FIsFinite", module = "Float64Scalar", warn = false)
    public static Value fisfinite(final Value a) { return b(Double.isFinite(d(a))); }
    @TLAPlusOperator(identifier = "FIsNormal", module = "Float64Scalar", warn = false)
    public static Value fisnormal(final Value a) {
        double x = Math.abs(d(a));
        return b(Double.isFinite(x) && x >= Double.MIN_NORMAL);
    }
    @TLAPlusOperator(identifier = "FUlp", module = "Float64Scalar", warn = false)
    public static Value fulp(final Value a) { return v(Math.ulp(d(a))); }

    static double fmin(double a, double b) { return a != a ? b : b != b ? a : b < a ? b : a; }
    static double fmax(double a, double b) { return a != a ? b : b != b ? a : a < b ? b : a; }
    @TLAPlusOperator(identifier = "FMin", module = "Float64", warn = false)
    public static Value fminv(final Value a, final Value b) { return v(fmin(d(a), d(b))); }
    @TLAPlusOperator(identifier = "FMax", module = "Float64", warn = false)
    public static Value fmaxv(final Value a, final Value b) { return v(fmax(d(a), d(b))); }
    @TLAPlusOperator(identifier = "FClose", module = "Float64", warn = false)
    public static Value fclose(final Value av, final Value bv, final Value tolv, final Value floorv) {
        double a = d(av), b = d(bv), tol = d(tolv), floor = d(floorv);
        if (a == b || (a != a && b != b)) return b(true);
        if (!Double.isFinite(a) || !Double.isFinite(b)) return b(false);
        return b(Math.abs(a - b) <= tol * fmax(fmax(Math.abs(a), Math.abs(b)), floor));
    }

    // ---------------------------------------------------------------- sequences
    @TLAPlusOperator(identifier = "FSum", module = "Float64", warn = false)
    public static Value fsum(final Value s) {
        double r = 0;
        for (double x : vec(s)) r += x;
        return v(r);
    }
    @TLAPlusOperator(identifier = "FMaxOf", module = "Float64", warn = false)
    public static Value fmaxof(final Value s) {
        double[] x = vec(s);
        double r = x[0];
        for (int k = 1; k < x.length; k++) r = fmax(r, x[k]);
        return v(r);
    }
    @TLAPlusOperator(identifier = "FMinOf", module = "Float64", warn = false)
    public static Value fminof(final Value s) {
        double[] x = vec(s);
        double r = x[0];
        for (int k = 1; k < x.length; k++) r = fmin(r, x[k]);
        return v(r);
    }
    static Integer[] rank(double[] x, boolean asc) {
        Integer[] p = new Integer[x.length];
        for (int k = 0; k < p.length; k++) p[k] = k;
        java.util.Arrays.sort(p, (s, t) -> {
            double a = asc ? x[s] : x[t], b = asc ? x[t] : x[s];
            return a < b ? -1 : a > b ? 1 : 0;
        });
        return p;
    }
    @TLAPlusOperator(identifier = "FRank", module = "Float64", warn = false)
    public static Value frank(final Value s, final Value asc) {
        Integer[] p = rank(vec(s), ((BoolValue) asc).val);
        Value[] e = new Value[p.length];
        for (int k = 0; k < e.length; k++) e[k] = IntValue.gen(p[k] + 1);
        return new TupleValue(e);
    }
    @TLAPlusOperator(identifier = "FMedian", module = "Float64", warn = false)
    public static Value fmedian(final Value s) {
        double[] x = vec(s);
        if (x.length == 0) return v(Double.NaN);
        Integer[] p = rank(x, true);
        int n = x.length;
        return v(n % 2 == 1 ? x[p[n / 2]] : (x[p[n / 2 - 1]] + x[p[n / 2]]) / 2.0);
    }

    // ---------------------------------------------------------------- vectors
    @TLAPlusOperator(identifier = "VAdd", module = "Float64", warn = false)
    public static Value vadd(final Value a, final Value b) {
        double[] x = vec(a), y = vec(b);
        for (int k = 0; k < x.length; k++) x[k] += y[k];
        return vec(x);
    }
    @TLAPlusOperator(identifier = "VSub", module = "Float64", warn = false)
    public static Value vsub(final Value a, final Value b) {
        double[] x = vec(a), y = vec(b);
        for (int k = 0; k < x.length; k++) x[k] -= y[k];
        return vec(x);
    }
    @TLAPlusOperator(identifier = "VScale", module = "Float64", warn = false)
    public static Value vscale(final Value a, final Value b) {
        double c = d(a);
        double[] x = vec(b);
        for (int k = 0; k < x.length; k++) x[k] *= c;
        return vec(x);
    }
    @TLAPlusOperator(identifier = "VMul", module = "Float64", warn = false)
    public static Value vmul(final Value a, final Value b) {
        double[] x = vec(a), y = vec(b);
        for (int k = 0; k < x.length; k++) x[k] *= y[k];
        return vec(x);
    }
    static double dot(double[] x, double[] y) {
        double r = 0;
        for (int k = 0; k < x.length; k++) r += x[k] * y[k];
        return r;
    }
    @TLAPlusOperator(identifier = "VDot", module = "Float64", warn = false)
    public static Value vdot(final Value a, final Value b) { return v(dot(vec(a), vec(b))); }
    @TLAPlusOperator(identifier = "VNorm", module = "Float64", warn = false)
    public static Value vnorm(final Value a) { double[] x = vec(a); return v(Math.sqrt(dot(x, x))); }
    static double maxabs(double[] x) {
        double r = Math.abs(x[0]);
        for (int k = 1; k < x.length; k++) r = fmax(r, Math.abs(x[k]));
        return r;
    }
    @TLAPlusOperator(identifier = "VMaxAbs", module = "Float64", warn = false)
    public static Value vmaxabs(final Value a) { return v(maxabs(vec(a))); }
    static boolean finite(double[] x) {
        for (double y : x) if (!Double.isFinite(y)) return false;
        return true;
    }
    @TLAPlusOperator(identifier = "VFinite", module = "Float64", warn = false)
    public static Value vfinite(final Value a) { return b(finite(vec(a))); }

    // ---------------------------------------------------------------- matrices
    @TLAPlusOperator(identifier = "MAdd", module = "Float64", warn = false)
    public static Value madd(final Value a, final Value b) {
        double[][] x = mat(a), y = mat(b);
        for (int k = 0; k < x.length; k++) for (int l = 0; l < x[k].length; l++) x[k][l] += y[k][l];
        return mat(x);
    }
    @TLAPlusOperator(identifier = "MSub", module = "Float64", warn = false)
    public static Value msub(final Value a, final Value b) {
        double[][] x = mat(a), y = mat(b);
        for (int k = 0; k < x.length; k++) for (int l = 0; l < x[k].length; l++) x[k][l] -= y[k][l];
        return mat(x);
    }
    @TLAPlusOperator(identifier = "MScale", module = "Float64", warn = false)
    public static Value mscale(final Value a, final Value b) {
        double c = d(a);
        double[][] x = mat(b);
        for (double[] r : x) for (int l = 0; l < r.length; l++) r[l] *= c;
        return mat(x);
    }
    @TLAPlusOperator(identifier = "MVec", module = "Float64", warn = false)
    public static Value mvec(final Value a, final Value b) {
        double[][] x = mat(a);
        double[] y = vec(b), r = new double[x.length];
        for (int k = 0; k < r.length; k++) r[k] = dot(x[k], y);
        return vec(r);
    }
    @TLAPlusOperator(identifier = "VAbs", module = "Float64", warn = false)
    public static Value vabs(final Value a) {
        double[] x = vec(a);
        for (int k = 0; k < x.length; k++) x[k] = Math.abs(x[k]);
        return vec(x);
    }
    @TLAPlusOperator(identifier = "MAbs", module = "Float64", warn = false)
    public static Value mabs(final Value a) {
        double[][] x = mat(a);
        for (double[] r : x) for (int l = 0; l < r.length; l++) r[l] = Math.abs(r[l]);
        return mat(x);
    }
    @TLAPlusOperator(identifier = "MMul", module = "Float64", warn = false)
    public static Value mmul(final Value a, final Value b) {
        double[][] x = mat(a), y = mat(b);
        int n = x.length;
        double[][] r = new double[n][n];
        for (int k = 0; k < n; k++) for (int l = 0; l < n; l++) {
            double s = 0;
            for (int m = 0; m < n; m++) s += x[k][m] * y[m][l];
            r[k][l] = s;
        }
        return mat(r);
    }
    @TLAPlusOperator(identifier = "MOuter", module = "Float64", warn = false)
    public static Value mouter(final Value a, final Value b) {
        double[] x = vec(a), y = vec(b);
        double[][] r = new double[x.length][y.length];
        for (int k = 0; k < x.length; k++) for (int l = 0; l < y.length; l++) r[k][l] = x[k] * y[l];
        return mat(r);
    }
    @TLAPlusOperator(identifier = "MMaxAbs", module = "Float64", warn = false)
    public static Value mmaxabs(final Value a) {
        double[][] x = mat(a);
        double r = maxabs(x[0]);
        for (int k = 1; k < x.length; k++) r = fmax(r, maxabs(x[k]));
        return v(r);
    }
    @TLAPlusOperator(identifier = "MFinite", module = "Float64", warn = false)
    public static Value mfinite(final Value a) {
        for (double[] r : mat(a)) if (!finite(r)) return b(false);
        return b(true);
    }
    @TLAPlusOperator(identifier = "MWeightedOuter", module = "Float64", warn = false)
    public static Value mwouter(final Value wv, final Value vs) {
        double[] w = vec(wv);
        double[][] x = mat(vs);
        int n = x[0].length;
        double[][] r = new double[n][n];
        for (int k = 0; k < w.length; k++)
            for (int a = 0; a < n; a++) for (int c = 0; c < n; c++) r[a][c] += w[k] * (x[k][a] * x[k][c]);
        return mat(r);
    }
    @TLAPlusOperator(identifier = "VWeighted", module = "Float64", warn = false)
    public static Value vweighted(final Value wv, final Value vs) {
        double[] w = vec(wv);
        double[][] x = mat(vs);
        double[] r = new double[x[0].length];
        for (int k = 0; k < w.length; k++) for (int a = 0; a < r.length; a++) r[a] += w[k] * x[k][a];
        return vec(r);
    }
    @TLAPlusOperator(identifier = "MCross", module = "Float64", warn = false)
    public static Value mcross(final Value us, final Value vs) {
        double[][] x = mat(us), y = mat(vs);
        int n = x[0].length;
        double[][] r = new double[n][n];
        for (int k = 0; k < x.length; k++)
            for (int a = 0; a < n; a++) for (int c = 0; c < n; c++) r[a][c] += x[k][a] * y[k][c];
        return mat(r);
    }
    @TLAPlusOperator(identifier = "VHist", module = "Float64", warn = false)
    public static Value vhist(final Value vs, final Value ev) {
        double[][] x = mat(vs);
        double[] e = vec(ev);
        int[] count = new int[e.length + 1];
        for (double[] r : x) for (double z : r) {
            int c = 0;
            for (double f : e) if (f <= z) c++;
            count[c]++;
        }
        Value[] res = new Value[count.length];
        for (int k = 0; k < res.length; k++) res[k] = IntValue.gen(count[k]);
        return new TupleValue(res);
    }
    @TLAPlusOperator(identifier = "MEig", module = "Float64Scalar", warn = false)
    public static Value meig(final Value av) {
        double[][] a = mat(av);
        int n = a.length;
        double[][] q = new double[n][n];
        for (int k = 0; k < n; k++) q[k][k] = 1;
        for (int sweep = 0; sweep < 100; sweep++) {
            double off = 0;
            for (int p = 0; p < n; p++) for (int r = p + 1; r < n; r++) off += a[p][r] * a[p][r];
            if (off == 0 || off != off) break;
            for (int p = 0; p < n; p++) for (int r = p + 1; r < n; r++) {
                double apr = a[p][r];
                if (apr == 0) continue;
                // negligible against both diagonal elements: set to zero exactly
                if (Math.abs(a[p][p]) + 100 * Math.abs(apr) == Math.abs(a[p][p])
                        && Math.abs(a[r][r]) + 100 * Math.abs(apr) == Math.abs(a[r][r])) {
                    a[p][r] = a[r][p] = 0;
                    continue;
                }
                double theta = (a[r][r] - a[p][p]) / (2 * apr);
                double t = Double.isInfinite(theta * theta) ? 1 / (2 * theta)
                        : Math.copySign(1, theta) / (Math.abs(theta) + Math.sqrt(theta * theta + 1));
                double c = 1 / Math.sqrt(t * t + 1), s = t * c;
                double app = a[p][p] - t * apr, arr = a[r][r] + t * apr;
                for (int k = 0; k < n; k++) if (k != p && k != r) {
                    double x = a[k][p], y = a[k][r];
                    a[k][p] = a[p][k] = c * x - s * y;
                    a[k][r] = a[r][k] = s * x + c * y;
                }
                a[p][p] = app; a[r][r] = arr; a[p][r] = a[r][p] = 0;
                for (int k = 0; k < n; k++) {
                    double x = q[k][p], y = q[k][r];
                    q[k][p] = c * x - s * y;
                    q[k][r] = s * x + c * y;
                }
            }
        }
        double[] ev = new double[n];
        for (int k = 0; k < n; k++) ev[k] = a[k][k];
        Integer[] p = rank(ev, true);
        double[] val = new double[n];
        double[][] vec = new double[n][n];
        for (int k = 0; k < n; k++) {
            val[k] = ev[p[k]];
            for (int m = 0; m < n; m++) vec[m][k] = q[m][p[k]];
        }
        return new RecordValue(new UniqueString[] { UniqueString.of("val"), UniqueString.of("vec") },
                new Value[] { vec(val), mat(vec) }, false);
    }
}
