// Accelerated evaluation, for TLC, of operators DEFINED in spec/Num.tla and spec/Mat.tla.
// The TLA+ definitions are the semantics; every check re-validates part of its traces with this class absent.
import java.math.BigInteger;
import java.util.*;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

public class FFOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes") @Override public Class[] get() { return new Class[] { FFOverrides.class }; }
  static final UniqueString US_m = UniqueString.uniqueStringOf("m"), US_n = UniqueString.uniqueStringOf("n"), US_e = UniqueString.uniqueStringOf("e");
  static final UniqueString US_p = UniqueString.uniqueStringOf("p"), US_lo = UniqueString.uniqueStringOf("lo"), US_w = UniqueString.uniqueStringOf("wide");

  // ---------- values ----------
  static Value fld(Value r, UniqueString f) {
    RecordValue rv = (RecordValue) ((r instanceof RecordValue) ? r : r.toRcd());
    for (int i = 0; i < rv.names.length; i++) if (rv.names[i].equals(f)) return rv.values[i];
    throw new RuntimeException("no field " + f);
  }
  static Value[] tup(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    if (v instanceof FcnRcdValue && ((FcnRcdValue) v).domain == null) { // interval domain
      return ((FcnRcdValue) v).values;
    }
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return t.elems;
  }
  static int iv(Value v) { return ((IntValue) v).val; }
  static Value mkv(int x) { return IntValue.gen(x); }
  static Value mat(int m, int n, Value[] e) {
    return new RecordValue(new UniqueString[] { US_m, US_n, US_e }, new Value[] { mkv(m), mkv(n), new TupleValue(e) }, false);
  }
  static final class VM { int m, n; Value[] e; }
  static VM vm(Value v) { VM r = new VM(); r.m = iv(fld(v, US_m)); r.n = iv(fld(v, US_n)); r.e = tup(fld(v, US_e));
    if (r.e.length != r.m * r.n) throw new RuntimeException("bad matrix " + r.m + "x" + r.n + " len " + r.e.length); return r; }

  // ---------- rings ----------
  static final class Ring { boolean wide; long p, lo; BigInteger P, LO; boolean z; Value v; boolean small; }
  static Value lastR; static Ring lastRing;
  static synchronized Ring ring(Value v) {
    if (v == lastR) return lastRing;
    Ring r = new Ring(); r.v = v; r.wide = ((BoolValue) fld(v, US_w)).val;
    if (r.wide) { r.P = big(fld(v, US_p)); r.LO = big(fld(v, US_lo)); r.z = r.P.signum() == 0; }
    else { r.p = iv(fld(v, US_p)); r.lo = iv(fld(v, US_lo)); r.z = r.p == 0; r.P = BigInteger.valueOf(r.p); r.LO = BigInteger.valueOf(r.lo); }
    r.small = !r.wide && !r.z;
    lastR = v; lastRing = r; return r;
  }
  static BigInteger big(Value v) {
    if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
    Value[] t = tup(v); int s = iv(t[0]); if (s == 0) return BigInteger.ZERO;
    int bits = 15 * (t.length - 1); byte[] by = new byte[bits / 8 + 2]; // big endian
    int L = by.length;
    for (int i = 1; i < t.length; i++) { int l = iv(t[i]); int sh = 15 * (i - 1);
      for (int b = 0; b < 15; b++) if (((l >> b) & 1) != 0) { int q = sh + b; by[L - 1 - (q >> 3)] |= (byte) (1 << (q & 7)); } }
    return new BigInteger(s, by);
  }
  static Value unbig(BigInteger x) {
    int s = x.signum(); if (s == 0) return new TupleValue(new Value[] { mkv(0) });
    BigInteger a = x.abs(); int nl = (a.bitLength() + 14) / 15; Value[] t = new Value[nl + 1]; t[0] = mkv(s);
    for (int i = 0; i < nl; i++) { int l = 0; for (int b = 0; b < 15; b++) if (a.testBit(15 * i + b)) l |= 1 << b; t[i + 1] = mkv(l); }
    return new TupleValue(t);
  }
  static int chk(long x) { if (x > Integer.MAX_VALUE || x < Integer.MIN_VALUE) throw new RuntimeException("overflow " + x); return (int) x; }
  static Value el(Ring r, BigInteger x) {
    if (!r.z) x = x.subtract(r.LO).mod(r.P).add(r.LO);
    return r.wide ? unbig(x) : mkv(chk(x.longValueExact()));
  }
  static long can(Ring r, long x) { return r.z ? x : Math.floorMod(x - r.lo, r.p) + r.lo; }
  static Value el(Ring r, long x) { return mkv(chk(can(r, x))); }
  static long[] longs(Ring r, Value[] e) { // residues 0..p-1
    long[] a = new long[e.length];
    for (int i = 0; i < e.length; i++) a[i] = r.z ? iv(e[i]) : Math.floorMod((long) iv(e[i]), r.p);
    return a;
  }
  static BigInteger[] bigs(Ring r, Value[] e) { BigInteger[] a = new BigInteger[e.length];
    for (int i = 0; i < e.length; i++) { a[i] = big(e[i]); if (!r.z) a[i] = a[i].mod(r.P); } return a; }
  static Value[] vals(Ring r, long[] a) { Value[] e = new Value[a.length]; for (int i = 0; i < a.length; i++) e[i] = el(r, a[i]); return e; }
  static Value[] vals(Ring r, BigInteger[] a) { Value[] e = new Value[a.length]; for (int i = 0; i < a.length; i++) e[i] = el(r, a[i]); return e; }

  // ---------- scalars ----------
  @TLAPlusOperator(identifier = "Can", module = "Num", warn = false)
  public static Value Can(Value R, Value x) { Ring r = ring(R); return r.wide ? el(r, big(x)) : el(r, (long) iv(x)); }
  @TLAPlusOperator(identifier = "Add", module = "Num", warn = false)
  public static Value Add(Value R, Value x, Value y) { Ring r = ring(R); return r.wide ? el(r, big(x).add(big(y))) : el(r, (long) iv(x) + iv(y)); }
  @TLAPlusOperator(identifier = "Neg", module = "Num", warn = false)
  public static Value Neg(Value R, Value x) { Ring r = ring(R); return r.wide ? el(r, big(x).negate()) : el(r, -(long) iv(x)); }
  @TLAPlusOperator(identifier = "Mul", module = "Num", warn = false)
  public static Value Mul(Value R, Value x, Value y) { Ring r = ring(R);
    if (r.wide) return el(r, big(x).multiply(big(y)));
    if (r.z) return mkv(chk((long) iv(x) * iv(y)));
    return el(r, Math.floorMod((long) iv(x), r.p) * Math.floorMod((long) iv(y), r.p)); }
  @TLAPlusOperator(identifier = "Inv", module = "Num", warn = false)
  public static Value Inv(Value R, Value x) { Ring r = ring(R); return el(r, big(x).mod(r.P).modInverse(r.P)); }
  @TLAPlusOperator(identifier = "IsCanon", module = "Num", warn = false)
  public static Value IsCanon(Value R, Value x) { Ring r = ring(R);
    if (r.z) return BoolValue.ValTrue;
    if (r.wide) { BigInteger b = big(x).subtract(r.LO); return (b.signum() >= 0 && b.compareTo(r.P) < 0) ? BoolValue.ValTrue : BoolValue.ValFalse; }
    long d = iv(x) - r.lo; return d >= 0 && d < r.p ? BoolValue.ValTrue : BoolValue.ValFalse; }

  // ---------- data movement ----------
  @TLAPlusOperator(identifier = "View", module = "Mat", warn = false)
  public static Value View(Value b, Value off, Value ld, Value m, Value n) {
    Value[] s = tup(b); int o = iv(off), l = iv(ld), M = iv(m), N = iv(n); Value[] e = new Value[M * N];
    for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) e[i * N + j] = s[o + i * l + j];
    return mat(M, N, e);
  }
  @TLAPlusOperator(identifier = "VView", module = "Mat", warn = false)
  public static Value VView(Value b, Value off, Value inc, Value n) {
    Value[] s = tup(b); int o = iv(off), l = iv(inc), N = iv(n); Value[] e = new Value[N];
    for (int i = 0; i < N; i++) e[i] = s[o + i * l];
    return mat(N, 1, e);
  }
  @TLAPlusOperator(identifier = "Put", module = "Mat", warn = false)
  public static Value Put(Value b, Value off, Value ld, Value M) {
    Value[] s = tup(b).clone(); int o = iv(off), l = iv(ld); VM x = vm(M);
    for (int i = 0; i < x.m; i++) for (int j = 0; j < x.n; j++) s[o + i * l + j] = x.e[i * x.n + j];
    return new TupleValue(s);
  }
  @TLAPlusOperator(identifier = "VPut", module = "Mat", warn = false)
  public static Value VPut(Value b, Value off, Value inc, Value M) {
    Value[] s = tup(b).clone(); int o = iv(off), l = iv(inc); VM x = vm(M);
    for (int i = 0; i < x.m; i++) s[o + i * l] = x.e[i];
    return new TupleValue(s);
  }
  @TLAPlusOperator(identifier = "Tr", module = "Mat", warn = false)
  public static Value Tr(Value M) { VM x = vm(M); Value[] e = new Value[x.e.length];
    for (int i = 0; i < x.m; i++) for (int j = 0; j < x.n; j++) e[j * x.m + i] = x.e[i * x.n + j];
    return mat(x.n, x.m, e); }
  @TLAPlusOperator(identifier = "Sub4", module = "Mat", warn = false)
  public static Value Sub4(Value M, Value i0, Value j0, Value m, Value n) { VM x = vm(M); int a = iv(i0), b = iv(j0), mm = iv(m), nn = iv(n);
    Value[] e = new Value[mm * nn];
    for (int i = 0; i < mm; i++) for (int j = 0; j < nn; j++) e[i * nn + j] = x.e[(a + i) * x.n + b + j];
    return mat(mm, nn, e); }
  static Value zero(Ring r) { return r.wide ? el(r, BigInteger.ZERO) : el(r, 0L); }
  static Value one(Ring r) { return r.wide ? el(r, BigInteger.ONE) : el(r, 1L); }
  @TLAPlusOperator(identifier = "TriM", module = "Mat", warn = false)
  public static Value TriM(Value R, Value M, Value up, Value unit) { Ring r = ring(R); VM x = vm(M); boolean u = ((BoolValue) up).val, d = ((BoolValue) unit).val;
    Value z = zero(r), o = one(r); Value[] e = new Value[x.e.length];
    for (int i = 0; i < x.m; i++) for (int j = 0; j < x.n; j++) { int k = i * x.n + j;
      e[k] = i == j ? (d ? o : x.e[k]) : ((u && i < j) || (!u && i > j)) ? x.e[k] : z; }
    return mat(x.m, x.n, e); }
  @TLAPlusOperator(identifier = "PutTri", module = "Mat", warn = false)
  public static Value PutTri(Value X, Value M, Value up, Value unit) { VM x = vm(X), y = vm(M); boolean u = ((BoolValue) up).val, d = ((BoolValue) unit).val;
    Value[] e = new Value[x.e.length];
    for (int i = 0; i < x.m; i++) for (int j = 0; j < x.n; j++) { int k = i * x.n + j;
      e[k] = ((i == j && !d) || (u && i < j) || (!u && i > j)) ? y.e[i * y.n + j] : x.e[k]; }
    return mat(x.m, x.n, e); }
  @TLAPlusOperator(identifier = "SymM", module = "Mat", warn = false)
  public static Value SymM(Value M, Value up) { VM x = vm(M); boolean u = ((BoolValue) up).val; Value[] e = new Value[x.m * x.m];
    for (int i = 0; i < x.m; i++) for (int j = 0; j < x.m; j++)
      e[i * x.m + j] = ((u && i <= j) || (!u && i >= j)) ? x.e[i * x.n + j] : x.e[j * x.n + i];
    return mat(x.m, x.m, e); }
  @TLAPlusOperator(identifier = "RowG", module = "Mat", warn = false)
  public static Value RowG(Value M, Value s) { VM x = vm(M); Value[] p = tup(s); Value[] e = new Value[x.e.length];
    for (int i = 0; i < x.m; i++) System.arraycopy(x.e, (iv(p[i]) - 1) * x.n, e, i * x.n, x.n);
    return mat(x.m, x.n, e); }
  @TLAPlusOperator(identifier = "ColG", module = "Mat", warn = false)
  public static Value ColG(Value M, Value s) { VM x = vm(M); Value[] p = tup(s); Value[] e = new Value[x.e.length];
    for (int i = 0; i < x.m; i++) for (int j = 0; j < x.n; j++) e[i * x.n + j] = x.e[i * x.n + iv(p[j]) - 1];
    return mat(x.m, x.n, e); }
  @TLAPlusOperator(identifier = "LapMath", module = "Mat", warn = false)
  public static Value LapMath(Value P, Value n) { Value[] p = tup(P); int N = iv(n); Value[] s = new Value[N];
    for (int i = 0; i < N; i++) s[i] = mkv(i + 1);
    for (int i = 0; i < N; i++) { int b = iv(p[i]); Value t = s[i]; s[i] = s[b]; s[b] = t; }
    return new TupleValue(s); }
  @TLAPlusOperator(identifier = "PInv", module = "Mat", warn = false)
  public static Value PInv(Value S) { Value[] p = tup(S); Value[] s = new Value[p.length];
    for (int i = 0; i < p.length; i++) s[iv(p[i]) - 1] = mkv(i + 1);
    return new TupleValue(s); }

  // ---------- arithmetic ----------
  static long[] mm(Ring r, long[] a, long[] b, int m, int k, int n) { // small modular
    long[] c = new long[m * n]; long p = r.p;
    if (p < 2000000000L) {
      long[] acc = new long[n];
      // products < 2^62: reduce lazily only when p small enough
      long lim = p <= 1 ? 1 : Math.max(1, (Long.MAX_VALUE - p) / ((p - 1) * (p - 1) + 1));
      for (int i = 0; i < m; i++) { Arrays.fill(acc, 0); long cnt = 0;
        for (int t = 0; t < k; t++) { long x = a[i * k + t];
          if (cnt == lim) { for (int j = 0; j < n; j++) acc[j] %= p; cnt = 1; if (lim == 1) { for (int j = 0; j < n; j++) acc[j] = (acc[j] + x * b[t * n + j] % p) % p; cnt = 1; continue; } }
          if (x != 0) { int bo = t * n; for (int j = 0; j < n; j++) acc[j] += x * b[bo + j]; }
          cnt++; }
        for (int j = 0; j < n; j++) c[i * n + j] = acc[j] % p; }
    }
    return c;
  }
  static BigInteger[] mm(Ring r, BigInteger[] a, BigInteger[] b, int m, int k, int n) {
    BigInteger[] c = new BigInteger[m * n];
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { BigInteger s = BigInteger.ZERO;
      for (int t = 0; t < k; t++) { BigInteger x = a[i * k + t], y = b[t * n + j]; if (x.signum() != 0 && y.signum() != 0) s = s.add(x.multiply(y)); }
      c[i * n + j] = r.z ? s : s.mod(r.P); }
    return c;
  }
  static long[] mmz(long[] a, long[] b, int m, int k, int n) { long[] c = new long[m * n];
    for (int i = 0; i < m; i++) for (int t = 0; t < k; t++) { long x = a[i * k + t]; if (x != 0) for (int j = 0; j < n; j++) c[i * n + j] = Math.addExact(c[i * n + j], Math.multiplyExact(x, b[t * n + j])); }
    return c; }
  @TLAPlusOperator(identifier = "MM", module = "Mat", warn = false)
  public static Value MM(Value R, Value A, Value B) { Ring r = ring(R); VM x = vm(A), y = vm(B);
    if (x.n != y.m) throw new RuntimeException("MM dims " + x.m + "x" + x.n + " * " + y.m + "x" + y.n);
    if (r.wide) return mat(x.m, y.n, vals(r, mm(r, bigs(r, x.e), bigs(r, y.e), x.m, x.n, y.n)));
    if (r.z) return mat(x.m, y.n, vals(r, mmz(longs(r, x.e), longs(r, y.e), x.m, x.n, y.n)));
    return mat(x.m, y.n, vals(r, mm(r, longs(r, x.e), longs(r, y.e), x.m, x.n, y.n))); }
  @TLAPlusOperator(identifier = "Lin", module = "Mat", warn = false)
  public static Value Lin(Value R, Value a, Value A, Value b, Value B) { Ring r = ring(R); VM x = vm(A), y = vm(B);
    Value[] e = new Value[x.e.length];
    if (x.n != y.n || x.m != y.m) throw new RuntimeException("Lin dims");
    if (r.wide) { BigInteger s = big(a), t = big(b); for (int i = 0; i < e.length; i++) e[i] = el(r, s.multiply(big(x.e[i])).add(t.multiply(big(y.e[i])))); }
    else if (r.z) { long s = iv(a), t = iv(b); for (int i = 0; i < e.length; i++) e[i] = el(r, s * iv(x.e[i]) + t * iv(y.e[i])); }
    else { long s = Math.floorMod((long) iv(a), r.p), t = Math.floorMod((long) iv(b), r.p); long[] u = longs(r, x.e), v = longs(r, y.e);
      for (int i = 0; i < e.length; i++) e[i] = el(r, (s * u[i]) % r.p + (t * v[i]) % r.p); }
    return mat(x.m, x.n, e); }
  @TLAPlusOperator(identifier = "Scal", module = "Mat", warn = false)
  public static Value Scal(Value R, Value a, Value A) { Ring r = ring(R); VM x = vm(A); Value[] e = new Value[x.e.length];
    if (r.wide) { BigInteger s = big(a); for (int i = 0; i < e.length; i++) e[i] = el(r, s.multiply(big(x.e[i]))); }
    else if (r.z) { long s = iv(a); for (int i = 0; i < e.length; i++) e[i] = el(r, s * iv(x.e[i])); }
    else { long s = Math.floorMod((long) iv(a), r.p); long[] u = longs(r, x.e); for (int i = 0; i < e.length; i++) e[i] = el(r, s * u[i]); }
    return mat(x.m, x.n, e); }
  @TLAPlusOperator(identifier = "CanM", module = "Mat", warn = false)
  public static Value CanM(Value R, Value A) { VM x = vm(A); Value[] e = new Value[x.e.length]; for (int i = 0; i < e.length; i++) e[i] = Can(R, x.e[i]); return mat(x.m, x.n, e); }
  @TLAPlusOperator(identifier = "CanonM", module = "Mat", warn = false)
  public static Value CanonM(Value R, Value A) { VM x = vm(A); for (Value v : x.e) if (IsCanon(R, v) != BoolValue.ValTrue) return BoolValue.ValFalse; return BoolValue.ValTrue; }

  // ---------- elimination ----------
  static final class El { int[] lead; long[][] rowL; BigInteger[][] rowB; BigInteger[] val; int rank; }
  static El elim(Ring r, VM x) {
    El o = new El(); o.lead = new int[x.m]; o.val = new BigInteger[x.m]; int[] byCol = new int[x.n]; Arrays.fill(byCol, -1);
    if (r.small) {
      long p = r.p; long[] a = longs(r, x.e); o.rowL = new long[x.m][];
      for (int i = 0; i < x.m; i++) { long[] row = Arrays.copyOfRange(a, i * x.n, (i + 1) * x.n); int lead = -1;
        for (int j = 0; j < x.n; j++) { if (row[j] == 0) continue;
          if (byCol[j] >= 0) { long[] d = o.rowL[byCol[j]]; long c = p - row[j]; for (int k = j; k < x.n; k++) row[k] = (row[k] + c * d[k]) % p; }
          else if (lead < 0) { lead = j; // keep reducing further columns is not needed for the pivots
            break; } }
        if (lead >= 0) { o.val[i] = BigInteger.valueOf(row[lead]); long v = o.val[i].modInverse(r.P).longValue(); for (int k = lead; k < x.n; k++) row[k] = row[k] * v % p; byCol[lead] = i; o.rank++; }
        o.lead[i] = lead + 1; o.rowL[i] = row; }
    } else {
      BigInteger p = r.P; BigInteger[] a = bigs(r, x.e); o.rowB = new BigInteger[x.m][];
      for (int i = 0; i < x.m; i++) { BigInteger[] row = Arrays.copyOfRange(a, i * x.n, (i + 1) * x.n); int lead = -1;
        for (int j = 0; j < x.n; j++) { if (row[j].signum() == 0) continue;
          if (byCol[j] >= 0) { BigInteger[] d = o.rowB[byCol[j]]; BigInteger c = row[j].negate(); for (int k = j; k < x.n; k++) row[k] = row[k].add(c.multiply(d[k])).mod(p); }
          else { lead = j; break; } }
        if (lead >= 0) { o.val[i] = row[lead]; BigInteger v = row[lead].modInverse(p); for (int k = lead; k < x.n; k++) row[k] = row[k].multiply(v).mod(p); byCol[lead] = i; o.rank++; }
        o.lead[i] = lead + 1; o.rowB[i] = row; }
    }
    return o;
  }
  static Value lastEM, lastER; static El lastE;
  static synchronized El elimC(Value R, Value M) { if (M == lastEM && R == lastER) return lastE; Ring r = ring(R); if (r.z) throw new RuntimeException("Elim over Z"); lastE = elim(r, vm(M)); lastEM = M; lastER = R; return lastE; }
  @TLAPlusOperator(identifier = "RPM", module = "Mat", warn = false)
  public static Value RPM(Value R, Value M) { El x = elimC(R, M); Value[] e = new Value[x.lead.length]; for (int i = 0; i < e.length; i++) e[i] = mkv(x.lead[i]); return new TupleValue(e); }
  @TLAPlusOperator(identifier = "Rank", module = "Mat", warn = false)
  public static Value Rank(Value R, Value M) { return mkv(elimC(R, M).rank); }
  static int sign(int[] s) { int c = 0; boolean[] seen = new boolean[s.length]; for (int i = 0; i < s.length; i++) { if (seen[i]) continue; int l = 0; for (int j = i; !seen[j]; j = s[j]) { seen[j] = true; l++; } c += l - 1; } return (c & 1) == 0 ? 1 : -1; }
  @TLAPlusOperator(identifier = "PSign", module = "Mat", warn = false)
  public static Value PSign(Value S) { Value[] p = tup(S); int[] s = new int[p.length]; for (int i = 0; i < s.length; i++) s[i] = iv(p[i]) - 1; return mkv(sign(s)); }
  @TLAPlusOperator(identifier = "DetF", module = "Mat", warn = false)
  public static Value DetF(Value R, Value M) { Ring r = ring(R); El x = elimC(R, M); int n = x.lead.length; if (x.rank < n) return zero(r);
    BigInteger d = BigInteger.ONE; int[] s = new int[n]; for (int i = 0; i < n; i++) { d = d.multiply(x.val[i]).mod(r.P); s[i] = x.lead[i] - 1; }
    return el(r, sign(s) == 1 ? d : d.negate()); }
  @TLAPlusOperator(identifier = "Rref", module = "Mat", warn = false)
  public static Value Rref(Value R, Value M) { Ring r = ring(R); VM x = vm(M); El o = elimC(R, M); int k = o.rank;
    Integer[] ix = new Integer[k]; int c = 0; for (int i = 0; i < x.m; i++) if (o.lead[i] > 0) ix[c++] = i;
    Arrays.sort(ix, Comparator.comparingInt(i -> o.lead[i])); Value[] e = new Value[k * x.n];
    if (r.small) { long p = r.p; long[][] w = new long[k][]; for (int i = 0; i < k; i++) w[i] = o.rowL[ix[i]].clone();
      for (int i = k - 1; i >= 0; i--) { int l = o.lead[ix[i]] - 1; for (int t = 0; t < i; t++) { long f = w[t][l]; if (f != 0) for (int j = l; j < x.n; j++) w[t][j] = (w[t][j] + (p - f) * w[i][j]) % p; } }
      for (int i = 0; i < k; i++) for (int j = 0; j < x.n; j++) e[i * x.n + j] = el(r, w[i][j]);
    } else { BigInteger p = r.P; BigInteger[][] w = new BigInteger[k][]; for (int i = 0; i < k; i++) w[i] = o.rowB[ix[i]].clone();
      for (int i = k - 1; i >= 0; i--) { int l = o.lead[ix[i]] - 1; for (int t = 0; t < i; t++) { BigInteger f = w[t][l]; if (f.signum() != 0) for (int j = l; j < x.n; j++) w[t][j] = w[t][j].subtract(f.multiply(w[i][j])).mod(p); } }
      for (int i = 0; i < k; i++) for (int j = 0; j < x.n; j++) e[i * x.n + j] = el(r, w[i][j]); }
    return mat(k, x.n, e); }

  // ---------- polynomials ----------
  static BigInteger rd(Ring r, BigInteger x) { return r.z ? x : x.mod(r.P); }
  @TLAPlusOperator(identifier = "CharPoly", module = "Mat", warn = false)
  public static Value CharPoly(Value R, Value M) { Ring r = ring(R); VM x = vm(M); int n = x.m;
    if (r.small) { long[] c = cpHess(r.p, longs(r, x.e), n); Value[] e = new Value[n + 1]; for (int i = 0; i <= n; i++) e[i] = el(r, c[i]); return new TupleValue(e); }
    BigInteger[] a = bigs(r, x.e); BigInteger[] v = { BigInteger.ONE }; // high degree first
    for (int k = 1; k <= n; k++) {
      BigInteger[] q = new BigInteger[k + 1]; q[0] = BigInteger.ONE; q[1] = a[(k - 1) * n + k - 1].negate();
      BigInteger[] w = new BigInteger[k - 1]; for (int i = 0; i < k - 1; i++) w[i] = a[i * n + k - 1];
      for (int t = 2; t <= k; t++) { BigInteger s = BigInteger.ZERO; for (int i = 0; i < k - 1; i++) s = s.add(a[(k - 1) * n + i].multiply(w[i])); q[t] = rd(r, s.negate());
        if (t < k) { BigInteger[] w2 = new BigInteger[k - 1]; for (int i = 0; i < k - 1; i++) { BigInteger u = BigInteger.ZERO; for (int j = 0; j < k - 1; j++) u = u.add(a[i * n + j].multiply(w[j])); w2[i] = rd(r, u); } w = w2; } }
      BigInteger[] nv = new BigInteger[k + 1];
      for (int i = 0; i <= k; i++) { BigInteger s = BigInteger.ZERO; for (int j = 0; j < k && j <= i; j++) s = s.add(q[i - j].multiply(v[j])); nv[i] = rd(r, s); }
      v = nv; }
    Value[] e = new Value[n + 1]; for (int i = 0; i <= n; i++) e[i] = el(r, v[n - i]); return new TupleValue(e); }
  static long inv(long a, long p) { return BigInteger.valueOf(a).modInverse(BigInteger.valueOf(p)).longValue(); }
  static long[] cpHess(long p, long[] A, int n) { // Hessenberg, field, p < 2^31
    long[] a = A.clone();
    for (int k = 1; k < n - 1; k++) { int i = k; while (i < n && a[i * n + k - 1] == 0) i++; if (i == n) continue;
      if (i != k) { for (int j = 0; j < n; j++) { long t = a[i * n + j]; a[i * n + j] = a[k * n + j]; a[k * n + j] = t; } for (int j = 0; j < n; j++) { long t = a[j * n + i]; a[j * n + i] = a[j * n + k]; a[j * n + k] = t; } }
      long v = inv(a[k * n + k - 1], p);
      for (i = k + 1; i < n; i++) { long u = a[i * n + k - 1] * v % p; if (u == 0) continue;
        for (int j = 0; j < n; j++) a[i * n + j] = (a[i * n + j] + (p - u) * a[k * n + j]) % p;
        for (int j = 0; j < n; j++) a[j * n + k] = (a[j * n + k] + u * a[j * n + i]) % p; } }
    long[][] P = new long[n + 1][]; P[0] = new long[] { 1 % p };
    for (int k = 1; k <= n; k++) { long[] q = new long[k + 1]; long d = a[(k - 1) * n + k - 1];
      for (int i = 0; i < k; i++) { q[i + 1] = (q[i + 1] + P[k - 1][i]) % p; q[i] = (q[i] + (p - d) * P[k - 1][i]) % p; }
      long t = 1; for (int i = 1; i < k; i++) { t = t * a[(k - i) * n + k - i - 1] % p; long c = t * a[(k - i - 1) * n + k - 1] % p; if (c != 0) for (int j = 0; j < P[k - i - 1].length; j++) q[j] = (q[j] + (p - c) * P[k - i - 1][j]) % p; }
      P[k] = q; }
    return P[n]; }
  // degree of the first dependency among V, AV, A^2V, ...
  @TLAPlusOperator(identifier = "AnnihDeg", module = "Mat", warn = false)
  public static Value AnnihDeg(Value R, Value A, Value V) { Ring r = ring(R); VM x = vm(A), v = vm(V); int L = v.e.length;
    if (r.small) { long p = r.p; long[] a = longs(r, x.e), w = longs(r, v.e); long[][] piv = new long[L][];
      for (int d = 0; d <= x.m; d++) { long[] row = w.clone(); int lead = -1;
        for (int j = 0; j < L; j++) { if (row[j] == 0) continue; if (piv[j] != null) { long c = p - row[j]; long[] q = piv[j]; for (int k = j; k < L; k++) row[k] = (row[k] + c * q[k]) % p; } else { lead = j; break; } }
        if (lead < 0) return mkv(d);
        long iv = inv(row[lead], p); for (int k = lead; k < L; k++) row[k] = row[k] * iv % p; piv[lead] = row;
        w = mm(r, a, w, x.m, x.n, v.n); }
    } else { BigInteger p = r.P; BigInteger[] a = bigs(r, x.e), w = bigs(r, v.e); BigInteger[][] piv = new BigInteger[L][];
      for (int d = 0; d <= x.m; d++) { BigInteger[] row = w.clone(); int lead = -1;
        for (int j = 0; j < L; j++) { if (row[j].signum() == 0) continue; if (piv[j] != null) { BigInteger c = row[j].negate(); BigInteger[] q = piv[j]; for (int k = j; k < L; k++) row[k] = row[k].add(c.multiply(q[k])).mod(p); } else { lead = j; break; } }
        if (lead < 0) return mkv(d);
        BigInteger iv = row[lead].modInverse(p); for (int k = lead; k < L; k++) row[k] = row[k].multiply(iv).mod(p); piv[lead] = row;
        w = mm(r, a, w, x.m, x.n, v.n); } }
    throw new RuntimeException("AnnihDeg"); }
  @TLAPlusOperator(identifier = "EvalOn", module = "Mat", warn = false)
  public static Value EvalOn(Value R, Value P, Value A, Value V) { Ring r = ring(R); VM x = vm(A), v = vm(V); Value[] c = tup(P);
    if (r.small) { long p = r.p; long[] a = longs(r, x.e), w = longs(r, v.e), k = longs(r, c), s = new long[w.length];
      for (int d = 0; d < k.length; d++) { for (int i = 0; i < s.length; i++) s[i] = (s[i] + k[d] * w[i]) % p; if (d + 1 < k.length) w = mm(r, a, w, x.m, x.n, v.n); }
      return new TupleValue(vals(r, s)); }
    BigInteger[] a = bigs(r, x.e), w = bigs(r, v.e), k = bigs(r, c), s = new BigInteger[w.length]; Arrays.fill(s, BigInteger.ZERO);
    for (int d = 0; d < k.length; d++) { for (int i = 0; i < s.length; i++) s[i] = rd(r, s[i].add(k[d].multiply(w[i]))); if (d + 1 < k.length) w = mm(r, a, w, x.m, x.n, v.n); }
    return new TupleValue(vals(r, s)); }
}
