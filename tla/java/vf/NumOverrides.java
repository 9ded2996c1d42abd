package vf;

// TLC overrides for module Num: real arithmetic on decimal strings and matrices
// (tuples of tuples of decimal strings).  Every operator is total: what is not a
// finite decimal number behaves as NaN, and NaN is never close to anything.

import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.IValue;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class NumOverrides implements ITLCOverrides {
    static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
    static final String NAN = "nan";

    @Override
    public Class[] get() {
        return new Class[] {NumOverrides.class};
    }

    static BigDecimal num(IValue v) {
        if (v instanceof IntValue) {
            return BigDecimal.valueOf(((IntValue) v).val);
        }
        if (v instanceof StringValue) {
            try {
                return new BigDecimal(((StringValue) v).val.toString());
            } catch (NumberFormatException e) {
                return null;
            }
        }
        return null;
    }

    static StringValue str(BigDecimal x) {
        if (x == null) {
            return new StringValue(NAN);
        }
        BigDecimal y = x.round(MC);
        return new StringValue(y.signum() == 0 ? "0" : y.stripTrailingZeros().toString());
    }

    static BigDecimal add(BigDecimal a, BigDecimal b) {
        return a == null || b == null ? null : a.add(b, MC);
    }

    static BigDecimal sub(BigDecimal a, BigDecimal b) {
        return a == null || b == null ? null : a.subtract(b, MC);
    }

    static BigDecimal mul(BigDecimal a, BigDecimal b) {
        return a == null || b == null ? null : a.multiply(b, MC);
    }

    static BigDecimal div(BigDecimal a, BigDecimal b) {
        return a == null || b == null || b.signum() == 0 ? null : a.divide(b, MC);
    }

    static BigDecimal[][] mat(IValue v) {
        TupleValue t = (TupleValue) ((Value) v).toTuple();
        if (t == null) {
            return null;
        }
        BigDecimal[][] m = new BigDecimal[t.elems.length][];
        for (int i = 0; i < m.length; i++) {
            TupleValue r = (TupleValue) t.elems[i].toTuple();
            if (r == null) {
                return null;
            }
            m[i] = new BigDecimal[r.elems.length];
            for (int j = 0; j < m[i].length; j++) {
                m[i][j] = num(r.elems[j]);
            }
            if (m[i].length != m[0].length) {
                return null;
            }
        }
        return m;
    }

    static TupleValue tuple(BigDecimal[][] m) {
        if (m == null) {
            // an ill-shaped matrix: never equal or close to a well-shaped one
            return new TupleValue(new Value[] {new TupleValue(new Value[] {new StringValue(NAN)})});
        }
        Value[] rows = new Value[m.length];
        for (int i = 0; i < m.length; i++) {
            Value[] r = new Value[m[i].length];
            for (int j = 0; j < r.length; j++) {
                r[j] = str(m[i][j]);
            }
            rows[i] = new TupleValue(r);
        }
        return new TupleValue(rows);
    }

    static boolean sameShape(BigDecimal[][] a, BigDecimal[][] b) {
        return a != null && b != null && a.length == b.length
            && (a.length == 0 || a[0].length == b[0].length);
    }

    // ---- scalars -----------------------------------------------------------
    @TLAPlusOperator(identifier = "RAdd", module = "Num", warn = false)
    public static Value rAdd(Value a, Value b) { return str(add(num(a), num(b))); }

    @TLAPlusOperator(identifier = "RSub", module = "Num", warn = false)
    public static Value rSub(Value a, Value b) { return str(sub(num(a), num(b))); }

    @TLAPlusOperator(identifier = "RMul", module = "Num", warn = false)
    public static Value rMul(Value a, Value b) { return str(mul(num(a), num(b))); }

    @TLAPlusOperator(identifier = "RDiv", module = "Num", warn = false)
    public static Value rDiv(Value a, Value b) { return str(div(num(a), num(b))); }

    @TLAPlusOperator(identifier = "RSqrt", module = "Num", warn = false)
    public static Value rSqrt(Value a) {
        BigDecimal x = num(a);
        return str(x == null || x.signum() < 0 ? null : x.sqrt(MC));
    }

    @TLAPlusOperator(identifier = "RLe", module = "Num", warn = false)
    public static Value rLe(Value a, Value b) {
        BigDecimal x = num(a), y = num(b);
        return x != null && y != null && x.compareTo(y) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "RFinite", module = "Num", warn = false)
    public static Value rFinite(Value a) { return num(a) != null ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static boolean close(BigDecimal x, BigDecimal y, BigDecimal tol) {
        return x != null && y != null && tol != null && x.subtract(y, MC).abs().compareTo(tol) <= 0;
    }

    @TLAPlusOperator(identifier = "RClose", module = "Num", warn = false)
    public static Value rClose(Value a, Value b, Value rtol, Value atol) {
        BigDecimal x = num(a), y = num(b);
        BigDecimal tol = y == null ? null : add(num(atol), mul(num(rtol), y.abs()));
        return close(x, y, tol) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    // ---- matrices ----------------------------------------------------------
    @TLAPlusOperator(identifier = "MMul", module = "Num", warn = false)
    public static Value mMul(Value av, Value bv) {
        BigDecimal[][] a = mat(av), b = mat(bv);
        if (a == null || b == null || (a.length > 0 && a[0].length != b.length)) {
            return tuple(null);
        }
        int n = a.length, k = b.length, m = k == 0 ? 0 : b[0].length;
        BigDecimal[][] c = new BigDecimal[n][m];
        for (int i = 0; i < n; i++) {
            for (int j = 0; j < m; j++) {
                BigDecimal s = BigDecimal.ZERO;
                for (int l = 0; l < k; l++) {
                    if (a[i][l] != null && b[l][j] != null
                        && (a[i][l].signum() == 0 || b[l][j].signum() == 0)) {
                        continue;
                    }
                    s = add(s, mul(a[i][l], b[l][j]));
                }
                c[i][j] = s;
            }
        }
        return tuple(c);
    }

    static Value zip(Value av, Value bv, boolean plus) {
        BigDecimal[][] a = mat(av), b = mat(bv);
        if (!sameShape(a, b)) {
            return tuple(null);
        }
        BigDecimal[][] c = new BigDecimal[a.length][];
        for (int i = 0; i < a.length; i++) {
            c[i] = new BigDecimal[a[i].length];
            for (int j = 0; j < a[i].length; j++) {
                c[i][j] = plus ? add(a[i][j], b[i][j]) : sub(a[i][j], b[i][j]);
            }
        }
        return tuple(c);
    }

    @TLAPlusOperator(identifier = "MAdd", module = "Num", warn = false)
    public static Value mAdd(Value a, Value b) { return zip(a, b, true); }

    @TLAPlusOperator(identifier = "MSub", module = "Num", warn = false)
    public static Value mSub(Value a, Value b) { return zip(a, b, false); }

    @TLAPlusOperator(identifier = "MScale", module = "Num", warn = false)
    public static Value mScale(Value s, Value av) {
        BigDecimal x = num(s);
        BigDecimal[][] a = mat(av);
        if (a == null) {
            return tuple(null);
        }
        BigDecimal[][] c = new BigDecimal[a.length][];
        for (int i = 0; i < a.length; i++) {
            c[i] = new BigDecimal[a[i].length];
            for (int j = 0; j < a[i].length; j++) {
                c[i][j] = mul(x, a[i][j]);
            }
        }
        return tuple(c);
    }

    @TLAPlusOperator(identifier = "MTrans", module = "Num", warn = false)
    public static Value mTrans(Value av) {
        BigDecimal[][] a = mat(av);
        if (a == null) {
            return tuple(null);
        }
        int n = a.length, m = n == 0 ? 0 : a[0].length;
        BigDecimal[][] c = new BigDecimal[m][n];
        for (int i = 0; i < n; i++) {
            for (int j = 0; j < m; j++) {
                c[j][i] = a[i][j];
            }
        }
        return tuple(c);
    }

    @TLAPlusOperator(identifier = "MForce", module = "Num", warn = false)
    public static Value mForce(Value a) { return tuple(mat(a)); }

    @TLAPlusOperator(identifier = "MMaxAbs", module = "Num", warn = false)
    public static Value mMaxAbs(Value av) {
        BigDecimal[][] a = mat(av);
        BigDecimal m = BigDecimal.ZERO;
        if (a == null) {
            return str(null);
        }
        for (BigDecimal[] r : a) {
            for (BigDecimal x : r) {
                if (x == null) {
                    return str(null);
                }
                m = m.max(x.abs());
            }
        }
        return str(m);
    }

    // |a - b| <= atol + rtol * max|b| entry by entry, same shape, all finite
    @TLAPlusOperator(identifier = "MClose", module = "Num", warn = false)
    public static Value mClose(Value av, Value bv, Value rtol, Value atol) {
        BigDecimal[][] a = mat(av), b = mat(bv);
        if (!sameShape(a, b)) {
            return BoolValue.ValFalse;
        }
        BigDecimal mx = BigDecimal.ZERO;
        for (BigDecimal[] r : b) {
            for (BigDecimal x : r) {
                if (x == null) {
                    return BoolValue.ValFalse;
                }
                mx = mx.max(x.abs());
            }
        }
        BigDecimal tol = add(num(atol), mul(num(rtol), mx));
        for (int i = 0; i < a.length; i++) {
            for (int j = 0; j < a[i].length; j++) {
                if (!close(a[i][j], b[i][j], tol)) {
                    return BoolValue.ValFalse;
                }
            }
        }
        return BoolValue.ValTrue;
    }

    // largest entry-wise deviation, for messages
    @TLAPlusOperator(identifier = "MDev", module = "Num", warn = false)
    public static Value mDev(Value av, Value bv) {
        BigDecimal[][] a = mat(av), b = mat(bv);
        if (!sameShape(a, b)) {
            return new StringValue("shape");
        }
        BigDecimal m = BigDecimal.ZERO;
        for (int i = 0; i < a.length; i++) {
            for (int j = 0; j < a[i].length; j++) {
                BigDecimal d = sub(a[i][j], b[i][j]);
                if (d == null) {
                    return new StringValue(NAN);
                }
                m = m.max(d.abs());
            }
        }
        return new StringValue(m.round(new MathContext(4)).toString());
    }
}
