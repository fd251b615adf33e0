// TLC operator overrides for module Rat (see Rat.tla).
//
// A rational is an IntValue when it is an integer of at most 31 bits and the
// canonical string "n" or "n/d" (lowest terms, d > 1) otherwise.  The strings
// "nan", "inf" and "-inf" stand for the IEEE values an implementation can
// return; every comparison with them is FALSE except REq on identical tokens.
import java.math.BigInteger;
import tlc2.value.impl.*;
import util.Assert;

public class Rat {
    private static final BigInteger LO = BigInteger.valueOf(Integer.MIN_VALUE + 1L);
    private static final BigInteger HI = BigInteger.valueOf(Integer.MAX_VALUE);

    static final class Q {
        final BigInteger n, d;               // d > 0, lowest terms
        Q(BigInteger n, BigInteger d) {
            if (d.signum() == 0) throw new ArithmeticException("zero denominator");
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            BigInteger g = n.gcd(d);
            if (g.signum() != 0 && !g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
            this.n = n; this.d = d;
        }
        Q(BigInteger n) { this.n = n; this.d = BigInteger.ONE; }
        Q add(Q o) {
            if (d.equals(o.d)) return d.equals(BigInteger.ONE) ? new Q(n.add(o.n)) : new Q(n.add(o.n), d);
            return new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
        }
        Q neg() { Q r = new Q(n.negate()); return d.equals(BigInteger.ONE) ? r : new Q(n.negate(), d); }
        Q sub(Q o) { return add(o.neg()); }
        Q mul(Q o) {
            if (d.equals(BigInteger.ONE) && o.d.equals(BigInteger.ONE)) return new Q(n.multiply(o.n));
            return new Q(n.multiply(o.n), d.multiply(o.d));
        }
        Q div(Q o) { return new Q(n.multiply(o.d), d.multiply(o.n)); }
        Q abs() { return n.signum() < 0 ? neg() : this; }
        int cmp(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
        BigInteger floor() {
            BigInteger[] qr = n.divideAndRemainder(d);
            return (qr[1].signum() < 0) ? qr[0].subtract(BigInteger.ONE) : qr[0];
        }
    }

    private static boolean isTok(Value v) {
        if (!(v instanceof StringValue)) return false;
        String s = ((StringValue) v).val.toString();
        if (s.isEmpty()) return true;
        char c = s.charAt(s.length() - 1);
        return c < '0' || c > '9';
    }
    private static Q q(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val));
        if (v instanceof StringValue) {
            String s = ((StringValue) v).val.toString();
            int i = s.indexOf('/');
            if (i < 0) return new Q(new BigInteger(s));
            return new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
        }
        Assert.fail("Rat: not a rational: " + v);
        return null;
    }
    private static Value v(Q a) {
        if (a.d.equals(BigInteger.ONE)) {
            if (a.n.compareTo(LO) >= 0 && a.n.compareTo(HI) <= 0) return IntValue.gen(a.n.intValue());
            return new StringValue(a.n.toString());
        }
        return new StringValue(a.n.toString() + "/" + a.d.toString());
    }
    private static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static Value[] seq(Value s) {
        Value t = s.toTuple();
        if (t == null) Assert.fail("Rat: not a sequence: " + s);
        return ((TupleValue) t).elems;
    }

    public static Value RIsNum(Value a) { return b(!isTok(a)); }
    public static Value RAdd(Value a, Value c) { return v(q(a).add(q(c))); }
    public static Value RSub(Value a, Value c) { return v(q(a).sub(q(c))); }
    public static Value RMul(Value a, Value c) { return v(q(a).mul(q(c))); }
    public static Value RDiv(Value a, Value c) { return v(q(a).div(q(c))); }
    public static Value RNeg(Value a) { return v(q(a).neg()); }
    public static Value RAbs(Value a) { return v(q(a).abs()); }
    public static Value RFloor(Value a) { return v(new Q(q(a).floor())); }
    public static Value RLt(Value a, Value c) { if (isTok(a) || isTok(c)) return b(false); return b(q(a).cmp(q(c)) < 0); }
    public static Value RLe(Value a, Value c) { if (isTok(a) || isTok(c)) return b(false); return b(q(a).cmp(q(c)) <= 0); }
    public static Value REq(Value a, Value c) {
        if (isTok(a) || isTok(c)) return b(a.toString().equals(c.toString()));
        return b(q(a).cmp(q(c)) == 0);
    }
    public static Value RPow(Value a, Value k) {
        int e = ((IntValue) k).val;
        Q x = q(a);
        if (e >= 0) return v(new Q(x.n.pow(e), x.d.pow(e)));
        return v(new Q(x.d.pow(-e), x.n.pow(-e)));
    }
    // nearest multiple of 10^-k (ties toward +infinity)
    public static Value RRound(Value a, Value k) {
        BigInteger p = BigInteger.TEN.pow(((IntValue) k).val);
        Q x = q(a).mul(new Q(p)).add(new Q(BigInteger.ONE, BigInteger.TWO));
        return v(new Q(x.floor(), p));
    }
    public static Value RSum(Value s) {
        Q r = new Q(BigInteger.ZERO);
        for (Value e : seq(s)) r = r.add(q(e));
        return v(r);
    }
    public static Value RDot(Value s, Value t) {
        Value[] a = seq(s), c = seq(t);
        if (a.length != c.length) Assert.fail("RDot: lengths differ");
        Q r = new Q(BigInteger.ZERO);
        for (int i = 0; i < a.length; i++) r = r.add(q(a[i]).mul(q(c[i])));
        return v(r);
    }
    private static boolean close(Value a, Value c, Q at, Q rt) {
        boolean ta = isTok(a), tc = isTok(c);
        if (tc && c instanceof StringValue && ((StringValue) c).val.toString().equals("?")) return true;
        if (ta || tc) return ta && tc && a.toString().equals(c.toString());
        Q y = q(c);
        Q diff = q(a).sub(y).abs();
        return diff.cmp(at.add(rt.mul(y.abs()))) <= 0;
    }
    // actual, expected, absolute tolerance, relative tolerance
    public static Value RClose(Value a, Value c, Value at, Value rt) { return b(close(a, c, q(at), q(rt))); }
    // 0 when the sequences agree element-wise, otherwise the first bad position (-1: lengths differ)
    public static Value RFirstBad(Value s, Value t, Value at, Value rt) {
        Value[] a = seq(s), c = seq(t);
        if (a.length != c.length) return IntValue.gen(-1);
        Q qa = q(at), qr = q(rt);
        for (int i = 0; i < a.length; i++) if (!close(a[i], c[i], qa, qr)) return IntValue.gen(i + 1);
        return IntValue.gen(0);
    }
    public static Value RMaxAbs(Value s) {
        Q m = new Q(BigInteger.ZERO);
        for (Value e : seq(s)) { if (isTok(e)) continue; Q x = q(e).abs(); if (x.cmp(m) > 0) m = x; }
        return v(m);
    }
    public static Value RSorted(Value s) {
        Value[] a = seq(s).clone();
        java.util.Arrays.sort(a, (x, y) -> q(x).cmp(q(y)));
        return new TupleValue(a);
    }
}
