import java.math.BigInteger;
import java.nio.file.*;
import java.util.*;
import tlc2.value.impl.*;
import util.UniqueString;

/** Java definitions of the constant operators declared in Rat.tla (TLC picks up
 *  the class with the module's name).  Scalar arithmetic, plus accelerators for
 *  sums, dot products, matrix products and sorting whose meaning is given by the
 *  TLA+ definitions in Rat.tla (MC_Rat.tla checks that they agree). */
public class Rat {
    static RatValue r(Value v) { return RatValue.from(v); }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value Num(Value s) {
        if (s instanceof StringValue) {
            String t = ((StringValue) s).val.toString();
            int i = t.indexOf('/');
            if (i > 0) return RatValue.make(new BigInteger(t.substring(0, i)), new BigInteger(t.substring(i + 1)));
            if (t.equals("nan")) return RatValue.QNAN;
            if (t.equals("inf")) return RatValue.POS;
            if (t.equals("-inf")) return RatValue.NEG;
            return RatValue.ofDecimal(t);
        }
        return r(s);
    }
    public static Value RAdd(Value a, Value c) { return r(a).add(r(c)); }
    public static Value RSub(Value a, Value c) { return r(a).sub(r(c)); }
    public static Value RMul(Value a, Value c) { return r(a).mul(r(c)); }
    public static Value RDiv(Value a, Value c) { return r(a).div(r(c)); }
    public static Value RNeg(Value a) { return r(a).neg(); }
    public static Value RAbs(Value a) { return r(a).abs(); }
    public static Value RSqrt(Value a) { return r(a).sqrt(); }
    /** cube root to about 300 bits */
    public static Value RCbrt(Value a) {
        RatValue x = r(a);
        if (!x.fin() || x.sgn() == 0) return x;
        boolean neg = x.sgn() < 0;
        x = x.abs();
        int len = x.num.bitLength() - x.den.bitLength();
        int k = Math.max(0, 340 - len / 3);
        BigInteger t = x.num.shiftLeft(3 * k).divide(x.den);
        BigInteger g = BigInteger.ONE.shiftLeft(t.bitLength() / 3 + 1), three = BigInteger.valueOf(3);
        while (true) {   // integer Newton from above
            BigInteger h = g.shiftLeft(1).add(t.divide(g.multiply(g))).divide(three);
            if (h.compareTo(g) >= 0) break;
            g = h;
        }
        RatValue o = RatValue.make(g, BigInteger.ONE.shiftLeft(k));
        return neg ? o.neg() : o;
    }
    public static Value RLt(Value a, Value c) { RatValue x = r(a), y = r(c); return b(!x.isNan() && !y.isNan() && x.cmp(y) < 0); }
    public static Value RLe(Value a, Value c) { RatValue x = r(a), y = r(c); return b(!x.isNan() && !y.isNan() && x.cmp(y) <= 0); }
    public static Value REq(Value a, Value c) { RatValue x = r(a), y = r(c); return b(!x.isNan() && !y.isNan() && x.cmp(y) == 0); }
    public static Value IsNaN(Value a) { return b(r(a).isNan()); }
    public static Value IsFin(Value a) { return b(r(a).fin()); }
    public static Value IsNum(Value a) { return b(a instanceof RatValue || a instanceof IntValue); }
    public static Value RFloor(Value a) {
        RatValue x = r(a);
        BigInteger[] q = x.num.divideAndRemainder(x.den);
        BigInteger f = q[1].signum() < 0 ? q[0].subtract(BigInteger.ONE) : q[0];
        return IntValue.gen(f.intValueExact());
    }

    // ---- elementary functions, about 300 bits ------------------------------
    static RatValue q(long n, long d) { return RatValue.make(BigInteger.valueOf(n), BigInteger.valueOf(d)); }
    static RatValue chop(RatValue x) {   // keep 420 fractional bits
        BigInteger s = x.num.shiftLeft(420).divide(x.den);
        return RatValue.make(s, BigInteger.ONE.shiftLeft(420));
    }
    static RatValue exp(RatValue x) {
        if (!x.fin()) return x.isNan() ? x : x.sgn() > 0 ? x : RatValue.ZERO;
        int k = Math.max(0, x.num.bitLength() - x.den.bitLength() + 8);
        RatValue y = RatValue.make(x.num, x.den.shiftLeft(k)), t = RatValue.ONE, s = RatValue.ONE;
        for (int i = 1; i < 60; i++) { t = chop(t.mul(y).div(RatValue.of(i))); s = s.add(t); }
        for (int i = 0; i < k; i++) s = s.mul(s);
        return s;
    }
    static RatValue sincos(RatValue x, boolean cos) {
        // reduce by halving the angle, then double-angle formulas on (c,s)
        int k = Math.max(0, x.num.bitLength() - x.den.bitLength() + 6);
        RatValue y = chop(RatValue.make(x.num, x.den.shiftLeft(k)));
        RatValue c = RatValue.ONE, s = RatValue.ZERO, t = RatValue.ONE;
        for (int i = 1; i < 70; i++) {
            t = chop(t.mul(y).div(RatValue.of(i)));
            switch (i % 4) {
                case 1: s = s.add(t); break;
                case 2: c = c.sub(t); break;
                case 3: s = s.sub(t); break;
                default: c = c.add(t);
            }
        }
        for (int i = 0; i < k; i++) {
            RatValue c2 = chop(c.mul(c).sub(s.mul(s))), s2 = chop(s.mul(c).mul(RatValue.of(2)));
            c = c2; s = s2;
        }
        return cos ? c : s;
    }
    public static Value RExp(Value a) { return exp(r(a)); }
    public static Value RCos(Value a) { return sincos(r(a), true); }
    public static Value RSin(Value a) { return sincos(r(a), false); }
    public static Value RTanh(Value a) {
        RatValue e = exp(r(a).mul(RatValue.of(2)));
        return e.sub(RatValue.ONE).div(e.add(RatValue.ONE));
    }

    // ---- sequences -----------------------------------------------------------
    static Value[] seq(Value v) {
        TupleValue t = v instanceof TupleValue ? (TupleValue) v : (TupleValue) v.toTuple();
        if (t == null) throw new tlc2.tool.EvalException(0, "not a sequence: " + v);
        return t.elems;
    }
    static boolean isVec(Value v, int n) {
        if (!(v instanceof TupleValue)) return false;
        Value[] e = ((TupleValue) v).elems;
        if (n >= 0 && e.length != n) return false;
        for (Value x : e) if (!(x instanceof RatValue || x instanceof IntValue)) return false;
        return true;
    }
    public static Value IsVec(Value v, Value n) { return b(isVec(v, ((IntValue) n).val)); }
    public static Value IsMat(Value m, Value n, Value p) {
        if (!(m instanceof TupleValue)) return b(false);
        Value[] e = ((TupleValue) m).elems;
        if (e.length != ((IntValue) n).val) return b(false);
        for (Value x : e) if (!isVec(x, ((IntValue) p).val)) return b(false);
        return b(true);
    }
    static RatValue[] vec(Value v) {
        Value[] e = seq(v);
        RatValue[] o = new RatValue[e.length];
        for (int i = 0; i < o.length; i++) o[i] = r(e[i]);
        return o;
    }
    static RatValue[][] mat(Value v) {
        Value[] e = seq(v);
        RatValue[][] o = new RatValue[e.length][];
        for (int i = 0; i < o.length; i++) o[i] = vec(e[i]);
        return o;
    }
    static Value tup(RatValue[] v) { return new TupleValue(v); }
    static Value tupm(RatValue[][] m) {
        Value[] o = new Value[m.length];
        for (int i = 0; i < o.length; i++) o[i] = tup(m[i]);
        return new TupleValue(o);
    }
    static RatValue dot(RatValue[] u, RatValue[] v) {
        if (u.length != v.length) throw new tlc2.tool.EvalException(0, "dot: lengths differ");
        RatValue s = RatValue.ZERO;
        for (int i = 0; i < u.length; i++) s = s.add(u[i].mul(v[i]));
        return s;
    }
    public static Value RSum(Value s) {
        RatValue t = RatValue.ZERO;
        for (RatValue x : vec(s)) t = t.add(x);
        return t;
    }
    public static Value Dot(Value u, Value v) { return dot(vec(u), vec(v)); }
    public static Value VAdd(Value u, Value v) {
        RatValue[] a = vec(u), c = vec(v), o = new RatValue[a.length];
        for (int i = 0; i < o.length; i++) o[i] = a[i].add(c[i]);
        return tup(o);
    }
    public static Value VSub(Value u, Value v) {
        RatValue[] a = vec(u), c = vec(v), o = new RatValue[a.length];
        for (int i = 0; i < o.length; i++) o[i] = a[i].sub(c[i]);
        return tup(o);
    }
    public static Value VMul(Value u, Value v) {
        RatValue[] a = vec(u), c = vec(v), o = new RatValue[a.length];
        for (int i = 0; i < o.length; i++) o[i] = a[i].mul(c[i]);
        return tup(o);
    }
    public static Value VScale(Value k, Value v) {
        RatValue c = r(k); RatValue[] a = vec(v), o = new RatValue[a.length];
        for (int i = 0; i < o.length; i++) o[i] = c.mul(a[i]);
        return tup(o);
    }
    public static Value Transpose(Value m) {
        RatValue[][] a = mat(m);
        int n = a.length, p = n == 0 ? 0 : a[0].length;
        RatValue[][] o = new RatValue[p][n];
        for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) o[j][i] = a[i][j];
        return tupm(o);
    }
    public static Value MatVec(Value m, Value v) {
        RatValue[][] a = mat(m); RatValue[] x = vec(v), o = new RatValue[a.length];
        for (int i = 0; i < o.length; i++) o[i] = dot(a[i], x);
        return tup(o);
    }
    public static Value MatMul(Value m, Value w) {
        RatValue[][] a = mat(m), c = mat(Transpose(w));
        RatValue[][] o = new RatValue[a.length][c.length];
        for (int i = 0; i < a.length; i++) for (int j = 0; j < c.length; j++) o[i][j] = dot(a[i], c[j]);
        return tupm(o);
    }
    public static Value RSort(Value s) {
        RatValue[] a = vec(s);
        Arrays.sort(a, (x, y) -> x.cmp(y));
        return tup(a);
    }
    /** the canonical, fully evaluated form of a sequence (of sequences ...) */
    public static Value Force(Value v) {
        if (v instanceof FcnLambdaValue || v instanceof FcnRcdValue || v instanceof TupleValue) {
            Value t = (Value) v.toTuple();
            if (t != null) {
                Value[] e = ((TupleValue) t).elems;
                for (int i = 0; i < e.length; i++) e[i] = Force(e[i]);
                return t;
            }
        }
        return v;
    }

    // ---- trace input: JSON with floats as exact rationals ----------------------
    public static Value ReadTrace(Value f) throws Exception {
        String t = Files.readString(Path.of(((StringValue) f).val.toString()));
        P p = new P(t);
        return p.val();
    }
    static class P {
        final String s; int i = 0;
        P(String s) { this.s = s; }
        void ws() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
        Value val() {
            ws();
            char c = s.charAt(i);
            if (c == '{') {
                i++; ArrayList<UniqueString> k = new ArrayList<>(); ArrayList<Value> v = new ArrayList<>();
                ws();
                if (s.charAt(i) == '}') { i++; return new RecordValue(new UniqueString[0], new Value[0], false); }
                while (true) {
                    ws(); String name = str(); ws(); i++; // ':'
                    k.add(UniqueString.uniqueStringOf(name)); v.add(val()); ws();
                    if (s.charAt(i++) == '}') break;
                }
                return new RecordValue(k.toArray(new UniqueString[0]), v.toArray(new Value[0]), false);
            }
            if (c == '[') {
                i++; ArrayList<Value> v = new ArrayList<>(); ws();
                if (s.charAt(i) == ']') { i++; return new TupleValue(new Value[0]); }
                while (true) { v.add(val()); ws(); if (s.charAt(i++) == ']') break; }
                return new TupleValue(v.toArray(new Value[0]));
            }
            if (c == '"') return new StringValue(str());
            if (s.startsWith("true", i)) { i += 4; return BoolValue.ValTrue; }
            if (s.startsWith("false", i)) { i += 5; return BoolValue.ValFalse; }
            if (s.startsWith("null", i)) { i += 4; return new StringValue("null"); }
            if (s.startsWith("NaN", i)) { i += 3; return RatValue.QNAN; }
            if (s.startsWith("Infinity", i)) { i += 8; return RatValue.POS; }
            if (s.startsWith("-Infinity", i)) { i += 9; return RatValue.NEG; }
            int j = i; boolean fl = false;
            while (j < s.length() && "+-0123456789.eE".indexOf(s.charAt(j)) >= 0) { if (".eE".indexOf(s.charAt(j)) >= 0) fl = true; j++; }
            String n = s.substring(i, j); i = j;
            return fl ? RatValue.ofDouble(Double.parseDouble(n)) : IntValue.gen(Integer.parseInt(n));
        }
        String str() {
            StringBuilder b = new StringBuilder(); i++;
            while (s.charAt(i) != '"') {
                char c = s.charAt(i++);
                if (c == '\\') {
                    c = s.charAt(i++);
                    if (c == 'u') { c = (char) Integer.parseInt(s.substring(i, i + 4), 16); i += 4; }
                    else if (c == 'n') c = '\n';
                    else if (c == 't') c = '\t';
                }
                b.append(c);
            }
            i++;
            return b.toString();
        }
    }
}
