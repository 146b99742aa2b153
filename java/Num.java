import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** TLC evaluation of the operators of spec/Num.tla. */
public class Num implements ITLCOverrides {
  public Class[] get() { return new Class[] { Num.class }; }

  static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
  static final BigDecimal TOL = new BigDecimal("1e-9");
  static final int NUM = 0, NAN = 1, PINF = 2, NINF = 3, UNK = 4;

  /** A parsed operand. */
  static final class N {
    final int k; final BigDecimal v;
    N(int k, BigDecimal v) { this.k = k; this.v = v; }
  }
  static final N N_NAN = new N(NAN, null), N_P = new N(PINF, null), N_M = new N(NINF, null), N_U = new N(UNK, null);
  static final StringValue S_NAN = new StringValue("NaN"), S_P = new StringValue("Inf"),
      S_M = new StringValue("-Inf"), S_U = new StringValue("?");
  static final ConcurrentHashMap<String, N> CACHE = new ConcurrentHashMap<>();

  static N p(Value x) {
    if (x instanceof IntValue) return new N(NUM, BigDecimal.valueOf(((IntValue) x).val));
    if (!(x instanceof StringValue)) throw new RuntimeException("Num: not a number: " + x);
    final String s = ((StringValue) x).val.toString();
    N n = CACHE.get(s);
    if (n == null) {
      switch (s) {
        case "NaN": n = N_NAN; break;
        case "Inf": case "+Inf": n = N_P; break;
        case "-Inf": n = N_M; break;
        case "?": n = N_U; break;
        default: n = new N(NUM, new BigDecimal(s));
      }
      if (CACHE.size() > 2000000) CACHE.clear();
      CACHE.put(s, n);
    }
    return n;
  }
  static Value num(BigDecimal b) {
    b = b.round(MC);
    if (b.signum() == 0) b = BigDecimal.ZERO;
    else b = b.stripTrailingZeros();
    final String s = b.toString();
    return new StringValue(s);
  }
  static boolean unk(N a, N b) { return a.k == UNK || b.k == UNK; }
  static double d(N a) {
    switch (a.k) { case NAN: return Double.NaN; case PINF: return Double.POSITIVE_INFINITY; case NINF: return Double.NEGATIVE_INFINITY;
      default: return a.v.signum() == 0 ? 0.0 : (a.v.signum() > 0 ? 1.0 : -1.0); }
  }
  static Value sp(double x) {
    if (Double.isNaN(x)) return S_NAN;
    if (x == Double.POSITIVE_INFINITY) return S_P;
    if (x == Double.NEGATIVE_INFINITY) return S_M;
    return num(BigDecimal.ZERO); // finite / infinite
  }

  @TLAPlusOperator(identifier = "NOf", module = "Num", warn = false)
  public static Value NOf(final IntValue n) { return num(BigDecimal.valueOf(n.val)); }
  @TLAPlusOperator(identifier = "NFrac", module = "Num", warn = false)
  public static Value NFrac(final IntValue n, final IntValue d) { return num(BigDecimal.valueOf(n.val).divide(BigDecimal.valueOf(d.val), MC)); }

  @TLAPlusOperator(identifier = "NAdd", module = "Num", warn = false)
  public static Value NAdd(final Value x, final Value y) {
    final N a = p(x), b = p(y);
    if (a.k == NUM && b.k == NUM) return num(a.v.add(b.v));
    if (unk(a, b)) return S_U;
    return sp((a.k == NUM ? 0 : d(a)) + (b.k == NUM ? 0 : d(b)));
  }
  @TLAPlusOperator(identifier = "NSub", module = "Num", warn = false)
  public static Value NSub(final Value x, final Value y) {
    final N a = p(x), b = p(y);
    if (a.k == NUM && b.k == NUM) return num(a.v.subtract(b.v));
    if (unk(a, b)) return S_U;
    return sp((a.k == NUM ? 0 : d(a)) - (b.k == NUM ? 0 : d(b)));
  }
  @TLAPlusOperator(identifier = "NMul", module = "Num", warn = false)
  public static Value NMul(final Value x, final Value y) {
    final N a = p(x), b = p(y);
    if (a.k == NUM && b.k == NUM) return num(a.v.multiply(b.v));
    if (unk(a, b)) return S_U;
    return sp(d(a) * d(b));
  }
  @TLAPlusOperator(identifier = "NDiv", module = "Num", warn = false)
  public static Value NDiv(final Value x, final Value y) {
    final N a = p(x), b = p(y);
    if (unk(a, b)) return S_U;
    if (a.k == NUM && b.k == NUM && b.v.signum() != 0) return num(a.v.divide(b.v, MC));
    return sp(d(a) / d(b));
  }
  @TLAPlusOperator(identifier = "NDivU", module = "Num", warn = false)
  public static Value NDivU(final Value x, final Value y, final Value m) {
    final N a = p(x), b = p(y), c = p(m);
    if (unk(a, b) || c.k == UNK) return S_U;
    if (b.k == NUM && c.k == NUM && b.v.abs().compareTo(c.v.abs().multiply(TOL)) <= 0) return S_U;
    return NDiv(x, y);
  }
  @TLAPlusOperator(identifier = "NNeg", module = "Num", warn = false)
  public static Value NNeg(final Value x) {
    final N a = p(x);
    if (a.k == NUM) return num(a.v.negate());
    return a.k == UNK ? S_U : sp(-d(a));
  }
  @TLAPlusOperator(identifier = "NAbs", module = "Num", warn = false)
  public static Value NAbs(final Value x) {
    final N a = p(x);
    if (a.k == NUM) return num(a.v.abs());
    return a.k == UNK ? S_U : sp(Math.abs(d(a)));
  }
  @TLAPlusOperator(identifier = "NSqrt", module = "Num", warn = false)
  public static Value NSqrt(final Value x) {
    final N a = p(x);
    if (a.k == NUM) {
      if (a.v.signum() < 0) return a.v.compareTo(new BigDecimal("-1e-25")) > 0 ? num(BigDecimal.ZERO) : S_NAN;
      return num(a.v.sqrt(MC));
    }
    return a.k == UNK ? S_U : sp(Math.sqrt(d(a)));
  }
  @TLAPlusOperator(identifier = "NAtan", module = "Num", warn = false)
  public static Value NAtan(final Value x) {
    final N a = p(x);
    if (a.k != NUM) return a.k == UNK ? S_U : S_NAN;
    return num(new BigDecimal(Math.atan(a.v.doubleValue())));
  }
  @TLAPlusOperator(identifier = "NPow", module = "Num", warn = false)
  public static Value NPow(final Value x, final IntValue n) {
    final N a = p(x);
    if (a.k != NUM) return a.k == UNK ? S_U : S_NAN;
    return num(a.v.pow(n.val, MC));
  }
  static int cmp(N a, N b) {
    if (unk(a, b) || a.k == NAN || b.k == NAN) return 2;
    if (a.k == NUM && b.k == NUM) return a.v.compareTo(b.v);
    return Double.compare(a.k == NUM ? 0 : d(a), b.k == NUM ? 0 : d(b));
  }
  @TLAPlusOperator(identifier = "NMax", module = "Num", warn = false)
  public static Value NMax(final Value x, final Value y) {
    final N a = p(x), b = p(y);
    if (unk(a, b)) return S_U;
    final int c = cmp(a, b);
    return c == 2 ? S_NAN : (c >= 0 ? x : y);
  }
  @TLAPlusOperator(identifier = "NMin", module = "Num", warn = false)
  public static Value NMin(final Value x, final Value y) {
    final N a = p(x), b = p(y);
    if (unk(a, b)) return S_U;
    final int c = cmp(a, b);
    return c == 2 ? S_NAN : (c <= 0 ? x : y);
  }
  @TLAPlusOperator(identifier = "NCmp", module = "Num", warn = false)
  public static Value NCmp(final Value x, final Value y) { return IntValue.gen(cmp(p(x), p(y))); }
  static Value b(boolean t) { return t ? BoolValue.ValTrue : BoolValue.ValFalse; }
  @TLAPlusOperator(identifier = "NLt", module = "Num", warn = false)
  public static Value NLt(final Value x, final Value y) { return b(cmp(p(x), p(y)) == -1); }
  @TLAPlusOperator(identifier = "NLe", module = "Num", warn = false)
  public static Value NLe(final Value x, final Value y) { final int c = cmp(p(x), p(y)); return b(c == -1 || c == 0); }
  @TLAPlusOperator(identifier = "NEq", module = "Num", warn = false)
  public static Value NEq(final Value x, final Value y) { return b(cmp(p(x), p(y)) == 0); }
  @TLAPlusOperator(identifier = "NFinite", module = "Num", warn = false)
  public static Value NFinite(final Value x) { return b(p(x).k == NUM); }

  static final BigDecimal P30 = new BigDecimal(1L << 30), P18 = new BigDecimal(1L << 18);
  @TLAPlusOperator(identifier = "NExact", module = "Num", warn = false)
  public static Value NExact(final Value x) {
    final N a = p(x);
    if (a.k != NUM || a.v.abs().compareTo(P18) >= 0) return BoolValue.ValFalse;
    final BigDecimal m = a.v.multiply(P30);
    return b(m.signum() == 0 || m.stripTrailingZeros().scale() <= 0);
  }
  static Value[] elems(final Value s) {
    final Value t = s.toTuple();
    if (t == null) throw new RuntimeException("Num: not a sequence: " + s);
    return ((TupleValue) t).elems;
  }
  @TLAPlusOperator(identifier = "NSumSeq", module = "Num", warn = false)
  public static Value NSumSeq(final Value s) {
    BigDecimal r = BigDecimal.ZERO;
    final Value[] e = elems(s);
    for (Value v : e) {
      final N a = p(v);
      if (a.k != NUM) { Value acc = num(BigDecimal.ZERO); for (Value w : e) acc = NAdd(acc, w); return acc; }
      r = r.add(a.v);
    }
    return num(r);
  }
  @TLAPlusOperator(identifier = "NMaxSeq", module = "Num", warn = false)
  public static Value NMaxSeq(final Value s) {
    final Value[] e = elems(s); Value r = e[0];
    for (int i = 1; i < e.length; i++) r = NMax(r, e[i]);
    return r;
  }
  @TLAPlusOperator(identifier = "NMinSeq", module = "Num", warn = false)
  public static Value NMinSeq(final Value s) {
    final Value[] e = elems(s); Value r = e[0];
    for (int i = 1; i < e.length; i++) r = NMin(r, e[i]);
    return r;
  }
  @TLAPlusOperator(identifier = "NRound", module = "Num", warn = false)
  public static Value NRound(final Value x, final IntValue d) {
    final N a = p(x);
    if (a.k != NUM) return x;
    return num(a.v.setScale(d.val, RoundingMode.HALF_UP));
  }
  @TLAPlusOperator(identifier = "NFloor", module = "Num", warn = false)
  public static Value NFloor(final Value x) {
    return IntValue.gen(p(x).v.setScale(0, RoundingMode.FLOOR).intValueExact());
  }
  static BigDecimal slack(N a, N b, N s) {
    BigDecimal m = BigDecimal.ONE;
    if (a.k == NUM && a.v.abs().compareTo(m) > 0) m = a.v.abs();
    if (b.k == NUM && b.v.abs().compareTo(m) > 0) m = b.v.abs();
    if (s.k == NUM) {
      // a scale of "0" or more replaces the default 1 as the floor
      BigDecimal f = s.v.abs();
      m = a.v.abs().max(b.v.abs()).max(f);
    }
    return m.multiply(TOL);
  }
  @TLAPlusOperator(identifier = "NClose", module = "Num", warn = false)
  public static Value NClose(final Value x, final Value y, final Value s) {
    final N a = p(x), b = p(y);
    if (unk(a, b)) return BoolValue.ValTrue;
    if (a.k != NUM || b.k != NUM) return b(a.k == b.k);
    return b(a.v.subtract(b.v).abs().compareTo(slack(a, b, p(s))) <= 0);
  }
  static final Value T = BoolValue.ValTrue, F = BoolValue.ValFalse;
  static Value set(Value... v) { return new SetEnumValue(v, false); }
  static Value may(final Value x, final Value y, final Value s, boolean le) {
    final N a = p(x), b = p(y);
    if (unk(a, b)) return set(T, F);
    if (a.k != NUM || b.k != NUM) { final int c = cmp(a, b); return set(b(c == -1 || (le && c == 0))); }
    if (a.v.subtract(b.v).abs().compareTo(slack(a, b, p(s))) <= 0) return set(T, F);
    return set(b(a.v.compareTo(b.v) < 0));
  }
  @TLAPlusOperator(identifier = "NMayLt", module = "Num", warn = false)
  public static Value NMayLt(final Value x, final Value y, final Value s) { return may(x, y, s, false); }
  @TLAPlusOperator(identifier = "NMayLe", module = "Num", warn = false)
  public static Value NMayLe(final Value x, final Value y, final Value s) { return may(x, y, s, true); }
}
