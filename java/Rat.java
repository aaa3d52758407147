import java.math.BigDecimal;
import java.math.BigInteger;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/**
 * TLC module override for Rat.tla: exact rational arithmetic of unbounded size.
 * A rational is a TLA+ string "n" or "n/d" in lowest terms; integers (TLC IntValue) and decimal
 * strings ("0.35", "1e-05") are accepted everywhere an argument is expected.
 */
public class Rat {
    private static final BigInteger ONE = BigInteger.ONE;

    private static final class Q {
        final BigInteger n, d;
        Q(BigInteger a, BigInteger b) {
            if (b.signum() == 0) throw new RuntimeException("Rat: division by zero");
            if (b.signum() < 0) { a = a.negate(); b = b.negate(); }
            BigInteger g = a.gcd(b);
            if (!g.equals(ONE) && g.signum() != 0) { a = a.divide(g); b = b.divide(g); }
            n = a; d = b;
        }
        double dbl() { return new BigDecimal(n).divide(new BigDecimal(d), java.math.MathContext.DECIMAL128).doubleValue(); }
    }

    private static Q q(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), ONE);
        if (!(v instanceof StringValue)) throw new RuntimeException("Rat: not a number: " + v);
        String s = ((StringValue) v).val.toString();
        int i = s.indexOf('/');
        if (i >= 0) return new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
        if (s.indexOf('.') < 0 && s.indexOf('e') < 0 && s.indexOf('E') < 0) return new Q(new BigInteger(s), ONE);
        BigDecimal b = new BigDecimal(s);
        if (b.scale() <= 0) return new Q(b.toBigIntegerExact(), ONE);
        return new Q(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
    }

    private static Value v(Q a) {
        return new StringValue(a.d.equals(ONE) ? a.n.toString() : a.n + "/" + a.d);
    }

    private static Value v(double x) {
        BigDecimal b = new BigDecimal(x);
        if (b.scale() <= 0) return v(new Q(b.toBigInteger(), ONE));
        return v(new Q(b.unscaledValue(), BigInteger.TEN.pow(b.scale())));
    }

    private static int cmp(Q a, Q b) { return a.n.multiply(b.d).compareTo(b.n.multiply(a.d)); }
    private static Q sub(Q a, Q b) { return new Q(a.n.multiply(b.d).subtract(b.n.multiply(a.d)), a.d.multiply(b.d)); }

    public static Value R(Value a) { return v(q(a)); }
    public static Value RAdd(Value a, Value b) { Q x = q(a), y = q(b);
        return v(new Q(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d))); }
    public static Value RSub(Value a, Value b) { return v(sub(q(a), q(b))); }
    public static Value RMul(Value a, Value b) { Q x = q(a), y = q(b); return v(new Q(x.n.multiply(y.n), x.d.multiply(y.d))); }
    public static Value RDiv(Value a, Value b) { Q x = q(a), y = q(b); return v(new Q(x.n.multiply(y.d), x.d.multiply(y.n))); }
    public static Value RLt(Value a, Value b) { return cmp(q(a), q(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RLe(Value a, Value b) { return cmp(q(a), q(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value REq(Value a, Value b) { return cmp(q(a), q(b)) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }

    /** |a-b| <= 1e-9 * max(1e-3,|a|,|b|): equality of a computed float with its exact value. */
    public static Value RClose(Value a, Value b) {
        Q x = q(a), y = q(b);
        if (cmp(x, y) == 0) return BoolValue.ValTrue;
        Q diff = sub(x, y);
        BigDecimal d = new BigDecimal(diff.n.abs()).divide(new BigDecimal(diff.d), java.math.MathContext.DECIMAL64);
        double m = Math.max(1e-3, Math.max(Math.abs(x.dbl()), Math.abs(y.dbl())));
        return d.doubleValue() <= 1e-9 * m ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    /** a^b: exact for integer b, otherwise correctly rounded to double precision. */
    public static Value RPow(Value a, Value b) {
        Q x = q(a), y = q(b);
        if (y.d.equals(ONE) && y.n.bitLength() < 12) {
            int e = y.n.intValue();
            if (e >= 0) return v(new Q(x.n.pow(e), x.d.pow(e)));
            return v(new Q(x.d.pow(-e), x.n.pow(-e)));
        }
        return v(Math.pow(x.dbl(), y.dbl()));
    }

    public static Value RFloor(Value a) { Q x = q(a); BigInteger[] r = x.n.divideAndRemainder(x.d);
        BigInteger f = (r[1].signum() < 0) ? r[0].subtract(ONE) : r[0]; return IntValue.gen(f.intValueExact()); }
    /** truncation towards zero; a value within 1e-9 of an integer above it in magnitude is ambiguous in floating point, see RTruncs. */
    public static Value RTrunc(Value a) { Q x = q(a); return IntValue.gen(x.n.divide(x.d).intValueExact()); }
    /** round half to even */
    public static Value RRound(Value a, Value digits) { Q x = q(a); int k = ((IntValue) digits).val;
        BigDecimal b = new BigDecimal(x.n).divide(new BigDecimal(x.d), 60, java.math.RoundingMode.DOWN).setScale(k, java.math.RoundingMode.HALF_EVEN);
        return v(new Q(b.unscaledValue(), BigInteger.TEN.pow(Math.max(0, b.scale())))); }

    /** k successes out of n are compatible with probability p (6.5 sigma plus 2). */
    public static Value RBinomOk(Value k, Value n, Value p) {
        double kk = q(k).dbl(), nn = q(n).dbl(), pp = Math.min(1.0, Math.max(0.0, q(p).dbl()));
        double tol = 6.5 * Math.sqrt(nn * pp * (1 - pp)) + (pp <= 0 || pp >= 1 ? 1e-6 : 2.0);
        return Math.abs(kk - nn * pp) <= tol ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    /** great-circle distance in km between (lon1,lat1) and (lon2,lat2), mean Earth radius 6371 km */
    public static Value RGeo(Value a, Value b, Value c, Value d) {
        double lon1 = Math.toRadians(q(a).dbl()), lat1 = Math.toRadians(q(b).dbl());
        double lon2 = Math.toRadians(q(c).dbl()), lat2 = Math.toRadians(q(d).dbl());
        double s1 = Math.sin((lat2 - lat1) / 2), s2 = Math.sin((lon2 - lon1) / 2);
        double h = s1 * s1 + Math.cos(lat1) * Math.cos(lat2) * s2 * s2;
        return v(2 * 6371.0 * Math.atan2(Math.sqrt(h), Math.sqrt(1 - h)));
    }
    public static Value RLn(Value a) { return v(Math.log(q(a).dbl())); }

    public static Value StrHas(Value s, Value t) {
        return ((StringValue) s).val.toString().contains(((StringValue) t).val.toString()) ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value StrLower(Value s) { return new StringValue(((StringValue) s).val.toString().toLowerCase()); }
    public static Value StrTrim(Value s) { return new StringValue(((StringValue) s).val.toString().trim()); }
    public static Value StrCat(Value s, Value t) { return new StringValue(str(s) + str(t)); }
    private static String str(Value s) { return s instanceof StringValue ? ((StringValue) s).val.toString() : s.toString(); }
    /** TRUE iff s is a string value (used to tell "" placeholders from integers) */
    public static Value IsStr(Value s) { return s instanceof StringValue ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value StrIsNum(Value s) { try { q(s); return BoolValue.ValTrue; } catch (RuntimeException e) { return BoolValue.ValFalse; } }

    private static String s(Value v) { return ((StringValue) v).val.toString(); }
    public static Value StrStarts(Value a, Value b) { return s(a).startsWith(s(b)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
    /** days since 1970-01-01 of an ISO date */
    public static Value DateDays(Value a) { return IntValue.gen((int) java.time.LocalDate.parse(s(a).trim()).toEpochDay()); }
    public static Value DateOf(Value n) { return new StringValue(java.time.LocalDate.ofEpochDay(((IntValue) n).val).toString()); }
    /** k events are compatible with a Poisson number of mean m (6.5 sigma plus 3). */
    public static Value RPoisOk(Value k, Value m) { double x = q(k).dbl(), y = q(m).dbl();
        return Math.abs(x - y) <= 6.5 * Math.sqrt(y) + (y <= 0 ? 1e-6 : 3.0) ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RSqrt(Value a) { return v(Math.sqrt(q(a).dbl())); }
    public static Value RAbs(Value a) { Q x = q(a); return v(new Q(x.n.abs(), x.d)); }
}
