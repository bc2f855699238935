package aga8tla;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.ValueConstants;
import tlc2.value.impl.*;

/** IEEE-754 double arithmetic for TLC: the operators of module F64. */
public final class F64 {
    private F64() {}

    static final class D extends UserObj {
        final double v;
        D(double v) { this.v = v; }
        @Override public int compareTo(Value o) {
            if (o instanceof UserValue && ((UserValue) o).userObj instanceof D)
                return Long.compare(Double.doubleToLongBits(v), Double.doubleToLongBits(((D) ((UserValue) o).userObj).v));
            return -1;
        }
        @Override public boolean member(Value v) { return false; }
        @Override public boolean isFinite() { return true; }
        @Override public StringBuffer toString(StringBuffer sb, int off, boolean swallow) { return sb.append(v); }
    }

    static Value mk(double v) { return new UserValue(new D(v)); }
    static double d(Value v) {
        if (v instanceof UserValue) return ((D) ((UserValue) v).userObj).v;
        if (v instanceof IntValue) return ((IntValue) v).val;
        throw new RuntimeException("F64: not a number: " + v);
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static String s(Value v) { return ((StringValue) v).val.toString(); }
    static Value[] seq(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("F64: not a sequence: " + v);
        return ((TupleValue) t).elems;
    }

    @TLAPlusOperator(identifier = "FAdd", module = "F64", warn = false)
    public static Value add(Value x, Value y) { return mk(d(x) + d(y)); }
    @TLAPlusOperator(identifier = "FSub", module = "F64", warn = false)
    public static Value sub(Value x, Value y) { return mk(d(x) - d(y)); }
    @TLAPlusOperator(identifier = "FMul", module = "F64", warn = false)
    public static Value mul(Value x, Value y) { return mk(d(x) * d(y)); }
    @TLAPlusOperator(identifier = "FDiv", module = "F64", warn = false)
    public static Value div(Value x, Value y) { return mk(d(x) / d(y)); }
    @TLAPlusOperator(identifier = "\\oplus", module = "F64", warn = false)
    public static Value add2(Value x, Value y) { return mk(d(x) + d(y)); }
    @TLAPlusOperator(identifier = "\\ominus", module = "F64", warn = false)
    public static Value sub2(Value x, Value y) { return mk(d(x) - d(y)); }
    @TLAPlusOperator(identifier = "\\odot", module = "F64", warn = false)
    public static Value mul2(Value x, Value y) { return mk(d(x) * d(y)); }
    @TLAPlusOperator(identifier = "\\oslash", module = "F64", warn = false)
    public static Value div2(Value x, Value y) { return mk(d(x) / d(y)); }
    @TLAPlusOperator(identifier = "FNeg", module = "F64", warn = false)
    public static Value neg(Value x) { return mk(-d(x)); }
    @TLAPlusOperator(identifier = "FAbs", module = "F64", warn = false)
    public static Value abs(Value x) { return mk(Math.abs(d(x))); }
    @TLAPlusOperator(identifier = "FMax", module = "F64", warn = false)
    public static Value max(Value x, Value y) { return mk(Math.max(d(x), d(y))); }
    @TLAPlusOperator(identifier = "FSqrt", module = "F64", warn = false)
    public static Value sqrt(Value x) { return mk(Math.sqrt(d(x))); }
    @TLAPlusOperator(identifier = "FExp", module = "F64", warn = false)
    public static Value exp(Value x) { return mk(StrictMath.exp(d(x))); }
    @TLAPlusOperator(identifier = "FLn", module = "F64", warn = false)
    public static Value ln(Value x) { return mk(StrictMath.log(d(x))); }
    @TLAPlusOperator(identifier = "FPow", module = "F64", warn = false)
    public static Value pow(Value x, Value y) { return mk(StrictMath.pow(d(x), d(y))); }
    @TLAPlusOperator(identifier = "FLt", module = "F64", warn = false)
    public static Value lt(Value x, Value y) { return b(d(x) < d(y)); }
    @TLAPlusOperator(identifier = "FLe", module = "F64", warn = false)
    public static Value le(Value x, Value y) { return b(d(x) <= d(y)); }
    @TLAPlusOperator(identifier = "FEq", module = "F64", warn = false)
    public static Value eq(Value x, Value y) { return b(d(x) == d(y)); }
    @TLAPlusOperator(identifier = "FIsNaN", module = "F64", warn = false)
    public static Value isnan(Value x) { return b(Double.isNaN(d(x))); }
    @TLAPlusOperator(identifier = "FIsFinite", module = "F64", warn = false)
    public static Value isfinite(Value x) { return b(!Double.isNaN(d(x)) && !Double.isInfinite(d(x))); }
    @TLAPlusOperator(identifier = "F", module = "F64", warn = false)
    public static Value dec(Value x) { return mk(Double.parseDouble(s(x))); }
    @TLAPlusOperator(identifier = "FI", module = "F64", warn = false)
    public static Value fi(Value x) { return mk(((IntValue) x).val); }
    /** The values of a function on an integer interval (or of a sequence), in order. */
    static Value[] vals(Value v) {
        Value t = v.toTuple();
        if (t != null) return ((TupleValue) t).elems;
        Value f = v.toFcnRcd();
        if (f != null) { ((FcnRcdValue) f).normalize(); return ((FcnRcdValue) f).values; }
        throw new RuntimeException("F64: not a function on an interval: " + v);
    }
    static Value tup(Value[] a) { return new TupleValue(a); }
    static double unhex(Value x) {
        String t = s(x);
        if (t.length() != 16) throw new RuntimeException("F64: not a bit pattern: " + t);
        return Double.longBitsToDouble(Long.parseUnsignedLong(t, 16));
    }
    @TLAPlusOperator(identifier = "FHex", module = "F64", warn = false)
    public static Value hex(Value x) { return mk(unhex(x)); }
    @TLAPlusOperator(identifier = "FBits", module = "F64", warn = false)
    public static Value bits(Value x) { return new StringValue(String.format("%016x", Double.doubleToRawLongBits(d(x)))); }
    @TLAPlusOperator(identifier = "FStr", module = "F64", warn = false)
    public static Value str(Value x) { return new StringValue(Double.toString(d(x))); }
    @TLAPlusOperator(identifier = "FPowI", module = "F64", warn = false)
    public static Value powi(Value x, Value n) { return mk(StrictMath.pow(d(x), (double) ((IntValue) n).val)); }
    @TLAPlusOperator(identifier = "FSum", module = "F64", warn = false)
    public static Value sum(Value x) { double a = 0; for (Value e : vals(x)) a += d(e); return mk(a); }
    @TLAPlusOperator(identifier = "FSumAbs", module = "F64", warn = false)
    public static Value sumabs(Value x) { double a = 0; for (Value e : vals(x)) a += Math.abs(d(e)); return mk(a); }
    @TLAPlusOperator(identifier = "FVec", module = "F64", warn = false)
    public static Value vec(Value x) { return tup(vals(x)); }
    @TLAPlusOperator(identifier = "FHexVec", module = "F64", warn = false)
    public static Value hexvec(Value x) {
        Value[] a = vals(x), r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = mk(unhex(a[i]));
        return tup(r);
    }
    @TLAPlusOperator(identifier = "FDecVec", module = "F64", warn = false)
    public static Value decvec(Value x) {
        Value[] a = vals(x), r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = mk(Double.parseDouble(s(a[i])));
        return tup(r);
    }
    static long mix(long z) {
        z += 0x9e3779b97f4a7c15L;
        z = (z ^ (z >>> 30)) * 0xbf58476d1ce4e5b9L;
        z = (z ^ (z >>> 27)) * 0x94d049bb133111ebL;
        return z ^ (z >>> 31);
    }
    static long rnd(Value seed, Value k) {
        return mix(mix(((IntValue) seed).val * 0x632be59bd9b4e019L) ^ (long) ((IntValue) k).val);
    }
    @TLAPlusOperator(identifier = "Rnd", module = "F64", warn = false)
    public static Value rndI(Value seed, Value k, Value n) {
        return IntValue.gen((int) Long.remainderUnsigned(rnd(seed, k) >>> 3, ((IntValue) n).val));
    }
    @TLAPlusOperator(identifier = "FRnd", module = "F64", warn = false)
    public static Value rndF(Value seed, Value k) { return mk((rnd(seed, k) >>> 11) * 0x1.0p-53); }
    @TLAPlusOperator(identifier = "RndMix", module = "F64", warn = false)
    public static Value mix(Value seed, Value k) { return IntValue.gen((int) (rnd(seed, k) >>> 34)); }
    @TLAPlusOperator(identifier = "FNext", module = "F64", warn = false)
    public static Value next(Value x) { return mk(Math.nextUp(d(x))); }
    @TLAPlusOperator(identifier = "FPrev", module = "F64", warn = false)
    public static Value prev(Value x) { return mk(Math.nextDown(d(x))); }
    @TLAPlusOperator(identifier = "IntOf", module = "F64", warn = false)
    public static Value intof(Value x) { return IntValue.gen(Integer.parseInt(s(x))); }
    @TLAPlusOperator(identifier = "FScale2", module = "F64", warn = false)
    public static Value scale2(Value x, Value n) { return mk(Math.scalb(d(x), ((IntValue) n).val)); }
}
