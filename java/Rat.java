// TLC module override for spec/Rat.tla: exact rational arithmetic on BigInteger.
// TLC loads a class named like the module from its class path and replaces the
// TLA+ definitions whose names match a public static method below.
import java.math.BigInteger;
import tlc2.value.impl.*;
import tlc2.value.*;
import tlc2.util.FP64;
import util.Assert;

public class Rat {
  public static final class RatValue extends Value {
    final BigInteger n, d; // d > 0, gcd(n, d) = 1

    RatValue(BigInteger n, BigInteger d, boolean reduced) {
      if (!reduced) {
        if (d.signum() == 0) Assert.fail("Rat: division by zero");
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (!d.equals(BigInteger.ONE)) {
          int tz = Math.min(n.signum() == 0 ? Integer.MAX_VALUE : n.getLowestSetBit(), d.getLowestSetBit());
          if (n.signum() == 0) { d = BigInteger.ONE; }
          else {
            if (tz > 0) { n = n.shiftRight(tz); d = d.shiftRight(tz); }
            if (d.bitLength() - 1 != d.getLowestSetBit()) {   // not a power of two
              BigInteger g = n.gcd(d);
              if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
            }
          }
        }
      }
      this.n = n; this.d = d;
    }
    public byte getKind() { return USERVALUE; }
    public int cmp(RatValue o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
    public int compareTo(Object o) {
      if (o instanceof RatValue) return cmp((RatValue) o);
      if (o instanceof ModelValue) return 1;
      Assert.fail("Rat: attempted to compare a rational with another kind of value"); return 0;
    }
    public boolean equals(Object o) {
      if (o instanceof RatValue) { RatValue r = (RatValue) o; return n.equals(r.n) && d.equals(r.d); }
      if (o instanceof ModelValue) return false;
      Assert.fail("Rat: attempted to compare a rational with another kind of value"); return false;
    }
    public boolean member(Value v) { Assert.fail("Rat: not a set"); return false; }
    public boolean isFinite() { Assert.fail("Rat: not a set"); return false; }
    public Value takeExcept(ValueExcept e) { if (e.idx < e.path.length) Assert.fail("Rat: EXCEPT"); return e.value; }
    public Value takeExcept(ValueExcept[] e) { if (e.length != 0) Assert.fail("Rat: EXCEPT"); return this; }
    public int size() { Assert.fail("Rat: not a set"); return 0; }
    public boolean isNormalized() { return true; }
    public Value normalize() { return this; }
    public boolean isDefined() { return true; }
    public IValue deepCopy() { return this; }
    public long fingerPrint(long fp) { return FP64.Extend(FP64.Extend(fp, (byte) 77), n + "/" + d); }
    public IValue permute(IMVPerm p) { return this; }
    public StringBuffer toString(StringBuffer sb, int off, boolean sw) {
      sb.append('"').append(n); if (!d.equals(BigInteger.ONE)) sb.append('/').append(d);
      return sb.append('"');
    }
  }

  private static RatValue r(Value v) {
    if (v instanceof RatValue) return (RatValue) v;
    if (v instanceof IntValue) return new RatValue(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE, true);
    if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
    String t = v.toString(); Assert.fail("Rat: not a rational: " + t.substring(0, Math.min(80, t.length()))); return null;
  }
  private static RatValue parse(String s) {
    int e = s.indexOf('p');       // "MpE" is M * 2^E, the form in which doubles are recorded
    if (e >= 0) {
      BigInteger m = new BigInteger(s.substring(0, e)); int x = Integer.parseInt(s.substring(e + 1));
      return x >= 0 ? new RatValue(m.shiftLeft(x), BigInteger.ONE, true)
                    : new RatValue(m, BigInteger.ONE.shiftLeft(-x), false);
    }
    int i = s.indexOf('/');
    if (i < 0) return new RatValue(new BigInteger(s), BigInteger.ONE, true);
    return new RatValue(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)), false);
  }
  private static RatValue mk(BigInteger n, BigInteger d) { return new RatValue(n, d, false); }
  private static RatValue add(RatValue a, RatValue b) {
    if (a.d.equals(b.d)) return mk(a.n.add(b.n), a.d);
    return mk(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  private static RatValue mul(RatValue a, RatValue b) { return mk(a.n.multiply(b.n), a.d.multiply(b.d)); }

  public static Value RatOf(Value x) { return r(x); }
  public static Value RAdd(Value a, Value b) { return add(r(a), r(b)); }
  public static Value RSub(Value a, Value b) { RatValue y = r(b); return add(r(a), new RatValue(y.n.negate(), y.d, true)); }
  public static Value RMul(Value a, Value b) { return mul(r(a), r(b)); }
  public static Value RDiv(Value a, Value b) { RatValue x = r(a), y = r(b); return mk(x.n.multiply(y.d), x.d.multiply(y.n)); }
  public static Value RNeg(Value a) { RatValue x = r(a); return new RatValue(x.n.negate(), x.d, true); }
  public static Value RAbs(Value a) { RatValue x = r(a); return new RatValue(x.n.abs(), x.d, true); }
  public static Value RLe(Value a, Value b) { return r(a).cmp(r(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RLt(Value a, Value b) { return r(a).cmp(r(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value REq(Value a, Value b) { return r(a).cmp(r(b)) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RMin(Value a, Value b) { RatValue x = r(a), y = r(b); return x.cmp(y) <= 0 ? x : y; }
  public static Value RMax(Value a, Value b) { RatValue x = r(a), y = r(b); return x.cmp(y) >= 0 ? x : y; }
  public static Value RSign(Value a) { return IntValue.gen(r(a).n.signum()); }
  public static Value RFloor(Value a) {
    RatValue x = r(a); BigInteger[] q = x.n.divideAndRemainder(x.d);
    BigInteger f = q[1].signum() < 0 ? q[0].subtract(BigInteger.ONE) : q[0];
    if (f.bitLength() > 31) Assert.fail("RFloor: out of the range of TLC integers");
    return IntValue.gen(f.intValue());
  }
  // nearest multiple of 2^e to a, e chosen to keep `bits` significant bits
  public static Value RRound(Value a, Value bits) {
    RatValue x = r(a); int b = ((IntValue) bits).val;
    if (x.n.signum() == 0 || x.n.bitLength() + x.d.bitLength() <= b) return x;
    int sh = b - (x.n.bitLength() - x.d.bitLength());
    BigInteger n = x.n, d = x.d;
    if (sh >= 0) n = n.shiftLeft(sh); else d = d.shiftLeft(-sh);
    BigInteger q = n.add(d.shiftRight(1)).divide(d);
    return sh >= 0 ? mk(q, BigInteger.ONE.shiftLeft(sh)) : mk(q.shiftLeft(-sh), BigInteger.ONE);
  }
  // floor of the square root of a on the grid 2^-bits
  public static Value RSqrt(Value a, Value bits) {
    RatValue x = r(a); int b = ((IntValue) bits).val;
    if (x.n.signum() < 0) Assert.fail("RSqrt of a negative number");
    BigInteger q = x.n.shiftLeft(2 * b).divide(x.d).sqrt();
    return mk(q, BigInteger.ONE.shiftLeft(b));
  }
  private static Value[] elems(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    if (t == null) Assert.fail("Rat: expected a sequence");
    return t.elems;
  }
  public static Value RSum(Value s) {
    RatValue acc = new RatValue(BigInteger.ZERO, BigInteger.ONE, true);
    for (Value v : elems(s)) acc = add(acc, r(v));
    return acc;
  }
  public static Value RDot(Value w, Value s) {
    Value[] a = elems(w), b = elems(s);
    if (a.length != b.length) Assert.fail("RDot: lengths differ");
    RatValue acc = new RatValue(BigInteger.ZERO, BigInteger.ONE, true);
    for (int i = 0; i < a.length; i++) acc = add(acc, mul(r(a[i]), r(b[i])));
    return acc;
  }

  // x with every function on 1..n (also nested) written out as a sequence, other
  // functions, records and sets written out as well; same value, evaluated once
  private static Value deep(Value x, boolean rat) {
    if (x instanceof RatValue || x instanceof IntValue && !rat || x instanceof BoolValue) return x;
    if (rat && (x instanceof IntValue || x instanceof StringValue)) return r(x);
    if (x instanceof StringValue || x instanceof ModelValue) return x;
    if (x instanceof RecordValue) {
      RecordValue q = (RecordValue) x; Value[] v = new Value[q.values.length];
      for (int i = 0; i < v.length; i++) v[i] = deep((Value) q.values[i], rat);
      return new RecordValue(q.names, v, q.isNormalized());
    }
    if (x instanceof TupleValue || x instanceof FcnLambdaValue || x instanceof FcnRcdValue) {
      Value t = x.toTuple();
      if (t != null) {
        Value[] e = ((TupleValue) t).elems, v = new Value[e.length];
        for (int i = 0; i < v.length; i++) v[i] = deep(e[i], rat);
        return new TupleValue(v);
      }
      FcnRcdValue f = (FcnRcdValue) x.toFcnRcd(); f.normalize();
      Value[] d = f.getDomainAsValues(), v = new Value[d.length];
      for (int i = 0; i < v.length; i++) v[i] = deep((Value) f.values[i], rat);
      return new FcnRcdValue(d, v, true);
    }
    Value s = x.toSetEnum();
    if (s != null) { s.normalize(); return s; }
    return x;
  }
  public static Value Deep(Value x) { return deep(x, false); }
  public static Value DeepRat(Value x) { return deep(x, true); }
  private static void leaves(Value x, boolean hi, boolean abs, RatValue[] best) {
    if (x instanceof RatValue || x instanceof IntValue || x instanceof StringValue) {
      RatValue y = r(x);
      if (abs && y.n.signum() < 0) y = new RatValue(y.n.negate(), y.d, true);
      if (best[0] == null || (hi ? y.cmp(best[0]) > 0 : y.cmp(best[0]) < 0)) best[0] = y;
      return;
    }
    for (Value v : elems(x)) leaves(v, hi, abs, best);
  }
  private static Value ext(Value x, boolean hi, boolean abs) {
    RatValue[] b = new RatValue[1]; leaves(x, hi, abs, b);
    if (b[0] == null) Assert.fail("Rat: extremum of nothing");
    return b[0];
  }
  public static Value MaxLeaf(Value x) { return ext(x, true, false); }
  public static Value MinLeaf(Value x) { return ext(x, false, false); }
  public static Value AbsLeaf(Value x) { return ext(x, true, true); }
  // largest difference between corresponding entries; -1 when the shapes differ
  private static RatValue diff(Value a, Value b) {
    boolean sa = a instanceof RatValue || a instanceof IntValue || a instanceof StringValue;
    boolean sb = b instanceof RatValue || b instanceof IntValue || b instanceof StringValue;
    RatValue no = new RatValue(BigInteger.valueOf(-1), BigInteger.ONE, true);
    if (sa != sb) return no;
    if (sa) {
      RatValue x = r(a), y = r(b);
      RatValue d = add(x, new RatValue(y.n.negate(), y.d, true));
      return new RatValue(d.n.abs(), d.d, true);
    }
    Value[] x = elems(a), y = elems(b);
    if (x.length != y.length) return no;
    RatValue best = new RatValue(BigInteger.ZERO, BigInteger.ONE, true);
    for (int i = 0; i < x.length; i++) {
      RatValue d = diff(x[i], y[i]);
      if (d.n.signum() < 0) return d;
      if (d.cmp(best) > 0) best = d;
    }
    return best;
  }
  public static Value DiffLeaf(Value a, Value b) { return diff(a, b); }
}
