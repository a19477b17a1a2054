import java.math.BigDecimal;
import java.math.BigInteger;
import tlc2.value.*;
import tlc2.value.impl.*;
import tlc2.util.FP64;

/** An exact rational (or nan / +-inf) as a TLC value.  Only scalar arithmetic
 *  lives in Java; every algorithm is written in TLA+. */
public class RatValue extends Value {
    public static final int FIN = 0, NAN = 1, PINF = 2, NINF = 3;
    static final int MAXBITS = 640, KEEPBITS = 400;
    public final BigInteger num, den;   // den > 0, lowest terms (unless rounded)
    public final int special;

    static final RatValue QNAN = new RatValue(NAN), POS = new RatValue(PINF), NEG = new RatValue(NINF);
    public static final RatValue ZERO = of(0), ONE = of(1);

    private RatValue(int special) { this.special = special; num = BigInteger.ZERO; den = BigInteger.ONE; }
    private RatValue(BigInteger n, BigInteger d) { special = FIN; num = n; den = d; }

    static RatValue of(long n) { return new RatValue(BigInteger.valueOf(n), BigInteger.ONE); }

    static RatValue make(BigInteger n, BigInteger d) {
        if (d.signum() == 0) return n.signum() == 0 ? QNAN : (n.signum() > 0 ? POS : NEG);
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (n.signum() == 0) return ZERO;
        int tz = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
        if (tz > 0) { n = n.shiftRight(tz); d = d.shiftRight(tz); }
        if (d.bitLength() > 1 && d.bitCount() > 1) {
            BigInteger g = n.gcd(d);
            if (g.bitLength() > 1) { n = n.divide(g); d = d.divide(g); }
        }
        if (n.bitLength() > MAXBITS || d.bitLength() > MAXBITS) {
            // round to KEEPBITS significant bits: n/d ~ q * 2^-k
            int k = KEEPBITS - (n.bitLength() - d.bitLength());
            BigInteger q = k >= 0 ? n.shiftLeft(k).divide(d) : n.divide(d.shiftLeft(-k));
            if (k >= 0) { n = q; d = BigInteger.ONE.shiftLeft(k); }
            else { n = q.shiftLeft(-k); d = BigInteger.ONE; }
            tz = n.signum() == 0 ? 0 : Math.min(n.getLowestSetBit(), d.getLowestSetBit());
            if (tz > 0) { n = n.shiftRight(tz); d = d.shiftRight(tz); }
        }
        return new RatValue(n, d);
    }

    static RatValue ofDouble(double x) {
        if (Double.isNaN(x)) return QNAN;
        if (Double.isInfinite(x)) return x > 0 ? POS : NEG;
        if (x == 0) return ZERO;
        BigDecimal b = new BigDecimal(x);
        BigInteger u = b.unscaledValue();
        int s = b.scale();
        if (s <= 0) return make(u.multiply(BigInteger.TEN.pow(-s)), BigInteger.ONE);
        return make(u, BigInteger.TEN.pow(s));
    }
    static RatValue ofDecimal(String t) {
        BigDecimal b = new BigDecimal(t);
        BigInteger u = b.unscaledValue();
        int s = b.scale();
        if (s <= 0) return make(u.multiply(BigInteger.TEN.pow(-s)), BigInteger.ONE);
        return make(u, BigInteger.TEN.pow(s));
    }

    static RatValue from(Object v) {
        if (v instanceof RatValue) return (RatValue) v;
        if (v instanceof IntValue) return of(((IntValue) v).val);
        throw new tlc2.tool.EvalException(0, "not a number: " + v);
    }

    boolean isNan() { return special == NAN; }
    boolean fin() { return special == FIN; }
    int sgn() { return special == FIN ? num.signum() : special == PINF ? 1 : special == NINF ? -1 : 0; }

    RatValue neg() {
        if (special == FIN) return new RatValue(num.negate(), den);
        return special == NAN ? QNAN : special == PINF ? NEG : POS;
    }
    RatValue add(RatValue o) {
        if (fin() && o.fin()) {
            if (num.signum() == 0) return o;
            if (o.num.signum() == 0) return this;
            if (den.equals(o.den)) return make(num.add(o.num), den);
            return make(num.multiply(o.den).add(o.num.multiply(den)), den.multiply(o.den));
        }
        if (isNan() || o.isNan()) return QNAN;
        if (!fin() && !o.fin()) return special == o.special ? this : QNAN;
        return fin() ? o : this;
    }
    RatValue sub(RatValue o) { return add(o.neg()); }
    RatValue mul(RatValue o) {
        if (fin() && o.fin()) return make(num.multiply(o.num), den.multiply(o.den));
        if (isNan() || o.isNan()) return QNAN;
        int s = sgn() * o.sgn();
        return s == 0 ? QNAN : s > 0 ? POS : NEG;
    }
    RatValue div(RatValue o) {
        if (fin() && o.fin()) return make(num.multiply(o.den), den.multiply(o.num));
        if (isNan() || o.isNan() || (!fin() && !o.fin())) return QNAN;
        if (fin()) return ZERO;
        return (sgn() * (o.sgn() < 0 ? -1 : 1)) > 0 ? POS : NEG;
    }
    RatValue abs() { return sgn() < 0 ? neg() : this; }

    /** square root to about 400 bits */
    RatValue sqrt() {
        if (isNan() || sgn() < 0) return QNAN;
        if (!fin()) return POS;
        if (num.signum() == 0) return ZERO;
        BigInteger rn = num.sqrt(), rd = den.sqrt();
        if (rn.multiply(rn).equals(num) && rd.multiply(rd).equals(den)) return make(rn, rd);
        int k = KEEPBITS - (num.bitLength() - den.bitLength()) / 2;   // sqrt ~ 2^(len/2)
        if (k < 0) k = 0;
        BigInteger q = num.shiftLeft(2 * k).divide(den).sqrt();
        return make(q, BigInteger.ONE.shiftLeft(k));
    }

    /** total order used only by TLC to normalise sets */
    int cmp(RatValue o) {
        if (fin() && o.fin()) {
            if (den.equals(o.den)) return num.compareTo(o.num);
            int a = num.signum(), b = o.num.signum();
            if (a != b) return a < b ? -1 : 1;
            return num.multiply(o.den).compareTo(o.num.multiply(den));
        }
        return Integer.compare(rank(), o.rank());
    }
    private int rank() { return special == NINF ? -1 : special == FIN ? 0 : special == PINF ? 1 : 2; }

    double dbl() {
        if (special == NAN) return Double.NaN;
        if (special == PINF) return Double.POSITIVE_INFINITY;
        if (special == NINF) return Double.NEGATIVE_INFINITY;
        int sh = num.bitLength() - den.bitLength();
        int k = 80 - sh;
        BigInteger q = k >= 0 ? num.shiftLeft(k).divide(den) : num.divide(den.shiftLeft(-k));
        return new BigDecimal(q).doubleValue() * Math.pow(2, -k);
    }

    @Override public byte getKind() { return USERVALUE; }
    @Override public int compareTo(Object o) {
        if (o instanceof RatValue || o instanceof IntValue) return cmp(from(o));
        return 1;
    }
    @Override public boolean equals(Object o) {
        return (o instanceof RatValue || o instanceof IntValue) && cmp(from(o)) == 0;
    }
    @Override public boolean member(Value v) { return false; }
    @Override public boolean isFinite() { return false; }
    @Override public Value takeExcept(ValueExcept e) { return e.idx < e.path.length ? this : e.value; }
    @Override public Value takeExcept(ValueExcept[] e) { Value r = this; for (ValueExcept x : e) r = r.takeExcept(x); return r; }
    @Override public int size() { return 1; }
    @Override public boolean mutates() { return false; }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public void write(IValueOutputStream out) throws java.io.IOException {
        throw new java.io.IOException("RatValue is not kept in states");
    }
    @Override public long fingerPrint(long fp) {
        fp = FP64.Extend(fp, USERVALUE);
        return FP64.Extend(fp, special + "," + num + "/" + den);
    }
    @Override public IValue permute(IMVPerm p) { return this; }
    @Override public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
        if (fin() && den.equals(BigInteger.ONE) && num.bitLength() < 60) return sb.append(num);
        return sb.append(dbl());
    }
}
