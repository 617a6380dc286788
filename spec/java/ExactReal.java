import java.io.BufferedReader;
import java.io.FileInputStream;
import java.io.IOException;
import java.io.InputStreamReader;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.nio.charset.StandardCharsets;
import java.util.ArrayList;
import java.util.List;
import tlc2.tool.EvalException;
import tlc2.value.impl.*;
import util.UniqueString;

/** TLC evaluation of the operators of module ExactReal (see ExactReal.tla for their definitions). */
public final class ExactReal {
  private static final MathContext MC = RealValue.MC, MCD = RealValue.MCD;
  private static RealValue c(Value x) { return RealValue.conv(x); }
  private static RealValue r(BigDecimal b) {
    return new RealValue(b.precision() > 110 ? b.round(MC) : b);
  }
  public static Value R(Value x) { return c(x); }
  public static Value RQ(Value a, Value b) { return RDiv(a, b); }
  public static Value RAdd(Value x, Value y) {
    RealValue a = c(x), b = c(y);
    if (a.fin() && b.fin()) return r(a.v.add(b.v, MC));
    return RealValue.of(a.dbl() + b.dbl());
  }
  public static Value RSub(Value x, Value y) {
    RealValue a = c(x), b = c(y);
    if (a.fin() && b.fin()) return r(a.v.subtract(b.v, MC));
    return RealValue.of(a.dbl() - b.dbl());
  }
  public static Value RMul(Value x, Value y) {
    RealValue a = c(x), b = c(y);
    if (a.fin() && b.fin()) return r(a.v.multiply(b.v));
    return RealValue.of(a.dbl() * b.dbl());
  }
  public static Value RDiv(Value x, Value y) {
    RealValue a = c(x), b = c(y);
    if (a.fin() && b.fin()) {
      if (b.v.signum() == 0) return a.v.signum() == 0 ? RealValue.NAN : (a.v.signum() > 0 ? RealValue.PINF : RealValue.NINF);
      return new RealValue(a.v.divide(b.v, MCD));
    }
    return RealValue.of(a.dbl() / b.dbl());
  }
  public static Value RNeg(Value x) { RealValue a = c(x); return a.fin() ? new RealValue(a.v.negate()) : RealValue.of(-a.dbl()); }
  public static Value RAbs(Value x) { RealValue a = c(x); return a.fin() ? new RealValue(a.v.abs()) : RealValue.of(Math.abs(a.dbl())); }
  private static BoolValue B(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static int cmp(RealValue a, RealValue b) { return a.v.compareTo(b.v); }
  public static Value RLt(Value x, Value y) { RealValue a = c(x), b = c(y); return B(a.fin() && b.fin() ? cmp(a, b) < 0 : a.dbl() < b.dbl()); }
  public static Value RLe(Value x, Value y) { RealValue a = c(x), b = c(y); return B(a.fin() && b.fin() ? cmp(a, b) <= 0 : a.dbl() <= b.dbl()); }
  public static Value REq(Value x, Value y) { RealValue a = c(x), b = c(y); return B(a.fin() && b.fin() ? cmp(a, b) == 0 : a.dbl() == b.dbl()); }
  public static Value RSgn(Value x) { RealValue a = c(x); if (!a.fin()) throw new EvalException(2154, "RSgn of a non-finite number"); return IntValue.gen(a.v.signum()); }
  public static Value RMin(Value x, Value y) { return RLe(x, y) == BoolValue.ValTrue ? c(x) : c(y); }
  public static Value RMax(Value x, Value y) { return RLe(x, y) == BoolValue.ValTrue ? c(y) : c(x); }
  public static Value RFin(Value x) { return B(c(x).fin()); }
  public static Value RNaN(Value x) { RealValue a = c(x); return B(!a.fin() && Double.isNaN(a.dbl())); }
  public static Value RSqrt(Value x) {
    RealValue a = c(x);
    if (!a.fin() || a.v.signum() < 0) return RealValue.of(Math.sqrt(a.dbl()));
    if (a.v.signum() == 0) return RealValue.ZERO;
    return new RealValue(a.v.sqrt(new MathContext(40)));
  }
  public static Value RSin(Value x) { return RealValue.of(StrictMath.sin(c(x).dbl())); }
  public static Value RCos(Value x) { return RealValue.of(StrictMath.cos(c(x).dbl())); }
  public static Value RAtan2(Value y, Value x) { return RealValue.of(StrictMath.atan2(c(y).dbl(), c(x).dbl())); }
  public static Value RPi() { return new RealValue(new BigDecimal("3.14159265358979323846264338327950288419716939937510582")); }
  public static Value RFloor(Value x) { return IntValue.gen(c(x).v.setScale(0, java.math.RoundingMode.FLOOR).intValueExact()); }
  private static Value[] seq(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    if (t == null) throw new EvalException(2154, "ExactReal: not a sequence: " + s);
    return t.elems;
  }
  public static Value RSum(Value s) {
    BigDecimal acc = BigDecimal.ZERO; double d = 0; boolean fin = true;
    for (Value e : seq(s)) {
      RealValue a = c(e);
      if (a.fin()) { acc = acc.add(a.v, MC); } else { fin = false; d += a.dbl(); }
    }
    return fin ? new RealValue(acc) : RealValue.of(d);
  }
  public static Value RMaxSeq(Value s) {
    RealValue m = null;
    for (Value e : seq(s)) { RealValue a = c(e); if (m == null || RLe(m, a) == BoolValue.ValTrue || !a.fin()) m = a; if (!m.fin()) return m; }
    if (m == null) throw new EvalException(2154, "RMaxSeq of the empty sequence");
    return m;
  }
  public static Value RMinSeq(Value s) {
    RealValue m = null;
    for (Value e : seq(s)) { RealValue a = c(e); if (m == null || RLe(a, m) == BoolValue.ValTrue || !a.fin()) m = a; if (!m.fin()) return m; }
    if (m == null) throw new EvalException(2154, "RMinSeq of the empty sequence");
    return m;
  }
  public static Value RDot(Value s, Value t) {
    Value[] x = seq(s), y = seq(t);
    if (x.length != y.length) throw new EvalException(2154, "RDot of sequences of different lengths");
    BigDecimal acc = BigDecimal.ZERO; double d = 0; boolean fin = true;
    for (int i = 0; i < x.length; i++) {
      RealValue a = c(x[i]), b = c(y[i]);
      if (a.fin() && b.fin()) acc = acc.add(a.v.multiply(b.v), MC); else { fin = false; d += a.dbl() * b.dbl(); }
    }
    return fin ? new RealValue(acc) : RealValue.of(d);
  }
  /** Sparse symmetric matrix from its list of entries. */
  public static Value RCells(Value s) {
    java.util.TreeMap<Long, Value> m = new java.util.TreeMap<>();
    for (Value e : seq(s)) {
      Value[] t = seq(e);
      long key = (((long) ((IntValue) t[0]).val + 1) << 32) + ((IntValue) t[1]).val + 1;
      if (m.put(key, c(t[2])) != null) throw new EvalException(2154, "RCells: entry given twice");
    }
    return pairs(m);
  }
  public static Value SeqOf(Value S) {
    Value t = S.toSetEnum();
    if (t == null) throw new EvalException(2154, "SeqOf: not a finite set: " + S);
    t.normalize(); SetEnumValue e = (SetEnumValue) t;
    Value[] o = new Value[e.elems.size()];
    for (int i = 0; i < o.length; i++) o[i] = e.elems.elementAt(i);
    return new TupleValue(o);
  }
  private static Value pairs(java.util.TreeMap<Long, Value> m) {
    Value[] d = new Value[m.size()], v = new Value[m.size()]; int k = 0;
    for (java.util.Map.Entry<Long, Value> e : m.entrySet()) {
      d[k] = new TupleValue(new Value[] {IntValue.gen((int) (e.getKey() >> 32)), IntValue.gen((int) (e.getKey() & 0xffffffffL))}); v[k++] = e.getValue();
    }
    return new FcnRcdValue(d, v, false).normalize();
  }
  /** Sum of element matrices. */
  public static Value RAssemble(Value cells) {
    java.util.TreeMap<Long, Value> m = new java.util.TreeMap<>();
    for (Value e : seq(cells)) for (Value q : seq(e)) {
      Value[] t = seq(q);
      long key = (((long) ((IntValue) t[0]).val) << 32) + ((IntValue) t[1]).val;
      Value o = m.get(key);
      if (o == null) m.put(key, new TupleValue(new Value[] {c(t[2]), c(t[3])}));
      else { Value[] w = seq(o); m.put(key, new TupleValue(new Value[] {RAdd(w[0], t[2]), RAdd(w[1], t[3])})); }
    }
    return pairs(m);
  }
  public static Value RowSums(Value A, Value nn, Value xx) {
    int n = ((IntValue) nn).val; Value[] x = seq(xx);
    FcnRcdValue f = (FcnRcdValue) A.toFcnRcd(); Value[] dom = f.getDomainAsValues();
    RealValue[] s = new RealValue[n], a = new RealValue[n];
    for (int i = 0; i < n; i++) { s[i] = RealValue.ZERO; a[i] = RealValue.ZERO; }
    for (int k = 0; k < dom.length; k++) {
      Value[] p = seq(dom[k]); int i = ((IntValue) p[0]).val - 1, j = ((IntValue) p[1]).val - 1;
      if (i >= n || j >= n) continue;
      Value t = RMul(f.values[k], x[j]); s[i] = (RealValue) RAdd(s[i], t); a[i] = (RealValue) RAdd(a[i], RAbs(t));
      if (i != j) { t = RMul(f.values[k], x[i]); s[j] = (RealValue) RAdd(s[j], t); a[j] = (RealValue) RAdd(a[j], RAbs(t)); }
    }
    Value[] o = new Value[n];
    for (int i = 0; i < n; i++) o[i] = new TupleValue(new Value[] {s[i], a[i]});
    return new TupleValue(o);
  }
  public static Value RStr(Value x) { return new StringValue(Double.toString(c(x).dbl())); }
  /** The 64-bit floating point number nearest to x, as C++ would print with 17 digits. */
  public static Value RRound(Value x) { return RealValue.of(c(x).dbl()); }

  /** Pseudo-random choice from 0 .. n-1, a function of its arguments only. */
  public static Value Rnd(Value seed, Value k, Value n) {
    long z = 0x9E3779B97F4A7C15L;
    z = mix(z ^ mixValue(seed)); z = mix(z + 0x632BE59BD9B4E019L ^ mixValue(k));
    int m = ((IntValue) n).val;
    if (m <= 0) throw new EvalException(2154, "Rnd: empty range");
    return IntValue.gen((int) Long.remainderUnsigned(z, m));
  }
  private static long mixValue(Value v) {
    if (v instanceof IntValue) return mix(((IntValue) v).val + 0x9E3779B97F4A7C15L);
    if (v instanceof StringValue) return mix(v.toString().hashCode());
    long z = 17; for (Value e : seq(v)) z = mix(z * 31 + mixValue(e)); return z;
  }
  private static long mix(long z) {
    z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L; z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL; return z ^ (z >>> 31);
  }
  /** Append one value to a file as a line of JSON; always TRUE. */
  public static synchronized Value REmit(Value file, Value rec) {
    StringBuilder b = new StringBuilder(); json(b, rec); b.append('\n');
    try (java.io.FileOutputStream o = new java.io.FileOutputStream(((StringValue) file).val.toString(), true)) {
      o.write(b.toString().getBytes(StandardCharsets.UTF_8));
    } catch (IOException e) { throw new EvalException(2154, "REmit: " + e); }
    return BoolValue.ValTrue;
  }
  private static void json(StringBuilder b, Value v) {
    if (v instanceof RealValue) {
      double d = ((RealValue) v).dbl();
      b.append(Double.isNaN(d) ? "NaN" : Double.isInfinite(d) ? (d > 0 ? "Infinity" : "-Infinity") : Double.toString(d)); return;
    }
    if (v instanceof IntValue) { b.append(((IntValue) v).val); return; }
    if (v instanceof BoolValue) { b.append(((BoolValue) v).val); return; }
    if (v instanceof StringValue) { b.append('"').append(((StringValue) v).val.toString().replace("\\", "\\\\").replace("\"", "\\\"")).append('"'); return; }
    Value t = v.toTuple();
    if (t != null) {
      b.append('['); boolean first = true;
      for (Value e : ((TupleValue) t).elems) { if (!first) b.append(','); first = false; json(b, e); }
      b.append(']'); return;
    }
    Value r = v.toRcd();
    if (r != null) {
      RecordValue rv = (RecordValue) r; b.append('{');
      for (int i = 0; i < rv.names.length; i++) { if (i > 0) b.append(','); b.append('"').append(rv.names[i]).append("\":"); json(b, rv.values[i]); }
      b.append('}'); return;
    }
    throw new EvalException(2154, "REmit: cannot write " + v);
  }

  /* ---- trace input: newline-delimited JSON -> sequence of records ---- */
  public static Value RLoad(Value file) {
    String name = ((StringValue) file).val.toString();
    List<Value> out = new ArrayList<>();
    try (BufferedReader br = new BufferedReader(new InputStreamReader(new FileInputStream(name), StandardCharsets.UTF_8), 1 << 20)) {
      String line;
      while ((line = br.readLine()) != null) { if (line.isEmpty()) continue; out.add(new P(line).top()); }
    } catch (IOException e) { throw new EvalException(2154, "RLoad: " + e); }
    return new TupleValue(out.toArray(new Value[0]));
  }
  private static final class P {
    final String s; int i = 0;
    P(String s) { this.s = s; }
    Value top() { Value v = val(); ws(); return v; }
    void ws() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
    Value val() {
      ws();
      char ch = s.charAt(i);
      if (ch == '{') {
        i++; List<UniqueString> ks = new ArrayList<>(); List<Value> vs = new ArrayList<>();
        ws(); if (s.charAt(i) == '}') { i++; return new RecordValue(new UniqueString[0], new Value[0], true); }
        while (true) {
          ws(); String k = str(); ws(); expect(':'); ks.add(UniqueString.uniqueStringOf(k)); vs.add(val()); ws();
          if (s.charAt(i) == ',') { i++; continue; }
          expect('}'); break;
        }
        return new RecordValue(ks.toArray(new UniqueString[0]), vs.toArray(new Value[0]), false).normalize();
      }
      if (ch == '[') {
        i++; List<Value> vs = new ArrayList<>(); ws();
        if (s.charAt(i) == ']') { i++; return new TupleValue(new Value[0]); }
        while (true) { vs.add(val()); ws(); if (s.charAt(i) == ',') { i++; continue; } expect(']'); break; }
        return new TupleValue(vs.toArray(new Value[0]));
      }
      if (ch == '"') return new StringValue(str());
      int j = i;
      while (j < s.length() && ",]} \t".indexOf(s.charAt(j)) < 0) j++;
      String t = s.substring(i, j); i = j;
      switch (t) {
        case "true": return BoolValue.ValTrue;
        case "false": return BoolValue.ValFalse;
        case "NaN": case "-NaN": return RealValue.NAN;
        case "Infinity": return RealValue.PINF;
        case "-Infinity": return RealValue.NINF;
      }
      boolean isInt = true;
      for (int k = 0; k < t.length(); k++) { char x = t.charAt(k); if (!(x >= '0' && x <= '9') && x != '-') { isInt = false; break; } }
      if (isInt) {
        long l = Long.parseLong(t);
        if (l > Integer.MAX_VALUE || l < Integer.MIN_VALUE) return new RealValue(BigDecimal.valueOf(l));
        return IntValue.gen((int) l);
      }
      return RealValue.of(Double.parseDouble(t));
    }
    void expect(char x) { if (s.charAt(i) != x) throw new EvalException(2154, "RLoad: expected " + x + " at " + i + " in " + s.substring(Math.max(0, i - 40), Math.min(s.length(), i + 40))); i++; }
    String str() {
      expect('"'); StringBuilder b = new StringBuilder();
      while (s.charAt(i) != '"') {
        char x = s.charAt(i++);
        if (x == '\\') { x = s.charAt(i++); if (x == 'n') x = '\n'; else if (x == 't') x = '\t'; }
        b.append(x);
      }
      i++; return b.toString();
    }
  }
}
