package spasm;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;
import java.util.*;

/** Evaluation of the operators marked (J) in Zp.tla and LinAlg.tla, in 64-bit arithmetic. */
public class Ops {
  static long mod(Value h) { return 2L * iv(h) + 1; }
  static long iv(Value v) { return ((IntValue) v).val; }
  static long cen(long a, long p) { long h = (p - 1) / 2; long r = Math.floorMod(a, p); return r > h ? r - p : r; }
  static long axpy(long a, long x, long y, long p) { return cen(cen(a * x, p) + y, p); }
  static long inv(long a, long p) {
    long t = 0, u = 1, r = p, s = Math.floorMod(a, p);
    while (s != 0) { long q = r / s, f = u; u = t - q * u; t = f; long b = s; s = r - q * s; r = b; }
    if (r != 1) throw new RuntimeException("no inverse");
    return cen(t, p);
  }
  static IntValue mk(long v) { return IntValue.gen((int) v); }
  static Value[] seq(Value v) { TupleValue t = (TupleValue) v.toTuple(); return t.elems; }
  static long[] longs(Value v) { Value[] e = seq(v); long[] r = new long[e.length]; for (int i = 0; i < e.length; i++) r[i] = iv(e[i]); return r; }
  static TupleValue tup(long[] a) { Value[] e = new Value[a.length]; for (int i = 0; i < a.length; i++) e[i] = mk(a[i]); return new TupleValue(e); }

  @TLAPlusOperator(identifier = "Cen", module = "Zp", warn = false)
  public static Value Cen(Value h, Value a) { return mk(cen(iv(a), mod(h))); }
  @TLAPlusOperator(identifier = "ZAdd", module = "Zp", warn = false)
  public static Value ZAdd(Value h, Value a, Value b) { return mk(cen(iv(a) + iv(b), mod(h))); }
  @TLAPlusOperator(identifier = "ZSub", module = "Zp", warn = false)
  public static Value ZSub(Value h, Value a, Value b) { return mk(cen(iv(a) - iv(b), mod(h))); }
  @TLAPlusOperator(identifier = "ZMul", module = "Zp", warn = false)
  public static Value ZMul(Value h, Value a, Value b) { return mk(cen(iv(a) * iv(b), mod(h))); }
  @TLAPlusOperator(identifier = "ZAxpy", module = "Zp", warn = false)
  public static Value ZAxpy(Value h, Value a, Value x, Value y) { return mk(axpy(iv(a), iv(x), iv(y), mod(h))); }
  @TLAPlusOperator(identifier = "ZInv", module = "Zp", warn = false)
  public static Value ZInv(Value h, Value a) { return mk(inv(iv(a), mod(h))); }
  @TLAPlusOperator(identifier = "VAxpy", module = "Zp", warn = false)
  public static Value VAxpy(Value h, Value a, Value X, Value Y) {
    long p = mod(h), c = iv(a); long[] x = longs(X), y = longs(Y);
    if (c != 0) for (int i = 0; i < y.length; i++) y[i] = axpy(c, x[i], y[i], p);
    return tup(y);
  }

  /* ---- sparse matrices ---- */
  static final UniqueString N = UniqueString.uniqueStringOf("n"), M = UniqueString.uniqueStringOf("m"), P = UniqueString.uniqueStringOf("p"),
    J = UniqueString.uniqueStringOf("j"), X = UniqueString.uniqueStringOf("x"), V = UniqueString.uniqueStringOf("v");
  static Value field(RecordValue r, UniqueString f) {
    for (int i = 0; i < r.names.length; i++) if (r.names[i].equals(f)) return r.values[i];
    throw new RuntimeException("no field " + f);
  }
  static final class Csr { int n, m; long[] p, j, x; }
  static final Map<Value, Csr> cache = new IdentityHashMap<>();
  static Csr csr(Value v) {
    synchronized (cache) {
      Csr c = cache.get(v);
      if (c != null) return c;
      RecordValue r = (RecordValue) v.toRcd();
      c = new Csr();
      c.n = (int) iv(field(r, N)); c.m = (int) iv(field(r, M)); c.p = longs(field(r, P)); c.j = longs(field(r, J)); c.x = longs(field(r, X));
      if (cache.size() > 64) cache.clear();
      cache.put(v, c);
      return c;
    }
  }
  static long[] drow(Csr A, int i, long p) {
    long[] r = new long[A.m];
    for (int k = (int) A.p[i]; k < A.p[i + 1]; k++) r[(int) A.j[k]] = cen(r[(int) A.j[k]] + A.x[k], p);
    return r;
  }
  @TLAPlusOperator(identifier = "DRow", module = "LinAlg", warn = false)
  public static Value DRow(Value h, Value A, Value i) { return tup(drow(csr(A), (int) iv(i) - 1, mod(h))); }
  @TLAPlusOperator(identifier = "VecMat", module = "LinAlg", warn = false)
  public static Value VecMat(Value h, Value x, Value A) {
    long p = mod(h); Csr a = csr(A); long[] xs = longs(x), y = new long[a.m];
    for (int i = 0; i < a.n; i++) if (xs[i] != 0) for (int k = (int) a.p[i]; k < a.p[i + 1]; k++) { int j = (int) a.j[k]; y[j] = axpy(xs[i], a.x[k], y[j], p); }
    return tup(y);
  }
  @TLAPlusOperator(identifier = "MatVec", module = "LinAlg", warn = false)
  public static Value MatVec(Value h, Value A, Value yv) {
    long p = mod(h); Csr a = csr(A); long[] y = longs(yv), r = new long[a.n];
    for (int i = 0; i < a.n; i++) for (int k = (int) a.p[i]; k < a.p[i + 1]; k++) r[i] = axpy(a.x[k], y[(int) a.j[k]], r[i], p);
    return tup(r);
  }
  @TLAPlusOperator(identifier = "ProdRow", module = "LinAlg", warn = false)
  public static Value ProdRow(Value h, Value L, Value iv_, Value U) {
    long p = mod(h); Csr l = csr(L), u = csr(U); int i = (int) iv(iv_) - 1; long[] y = new long[u.m];
    for (int k = (int) l.p[i]; k < l.p[i + 1]; k++) { int r = (int) l.j[k]; long c = l.x[k];
      for (int t = (int) u.p[r]; t < u.p[r + 1]; t++) { int j = (int) u.j[t]; y[j] = axpy(c, u.x[t], y[j], p); } }
    return tup(y);
  }
  @TLAPlusOperator(identifier = "ProdRows", module = "LinAlg", warn = false)
  public static Value ProdRows(Value h, Value L, Value I, Value U, Value A) {
    long p = mod(h); Csr l = csr(L), u = csr(U), a = csr(A);
    if (u.m != a.m) return BoolValue.ValFalse;
    long[] y = new long[u.m];
    ValueEnumeration it = ((SetEnumValue) I.toSetEnum()).elements(); Value e;
    while ((e = it.nextElement()) != null) {
      int i = (int) iv(e) - 1; boolean ok = true;
      for (int k = (int) a.p[i]; k < a.p[i + 1]; k++) { int j = (int) a.j[k]; y[j] = cen(y[j] - a.x[k], p); }
      for (int k = (int) l.p[i]; k < l.p[i + 1]; k++) { int r = (int) l.j[k]; long c = l.x[k];
        for (int t = (int) u.p[r]; t < u.p[r + 1]; t++) { int j = (int) u.j[t]; y[j] = axpy(c, u.x[t], y[j], p); } }
      for (int k = (int) a.p[i]; k < a.p[i + 1]; k++) { int j = (int) a.j[k]; if (y[j] != 0) ok = false; y[j] = 0; }
      for (int k = (int) l.p[i]; k < l.p[i + 1]; k++) { int r = (int) l.j[k];
        for (int t = (int) u.p[r]; t < u.p[r + 1]; t++) { int j = (int) u.j[t]; if (y[j] != 0) ok = false; y[j] = 0; } }
      if (!ok) return BoolValue.ValFalse;
    }
    return BoolValue.ValTrue;
  }
  @TLAPlusOperator(identifier = "LowerAt", module = "LinAlg", warn = false)
  public static Value LowerAt(Value h, Value L, Value pi) {
    long p = mod(h); Csr l = csr(L); long[] q = longs(pi), y = new long[l.m];
    for (int k = 0; k < q.length; k++) {
      int i = (int) q[k]; boolean ok = true;
      for (int t = (int) l.p[i]; t < l.p[i + 1]; t++) { int j = (int) l.j[t]; y[j] = cen(y[j] + l.x[t], p); }
      if (y[k] == 0) ok = false;
      for (int t = (int) l.p[i]; t < l.p[i + 1]; t++) { int j = (int) l.j[t]; if (j > k && y[j] != 0) ok = false; }
      for (int t = (int) l.p[i]; t < l.p[i + 1]; t++) y[(int) l.j[t]] = 0;
      if (!ok) return BoolValue.ValFalse;
    }
    return BoolValue.ValTrue;
  }
  @TLAPlusOperator(identifier = "Elim", module = "LinAlg", warn = false)
  public static Value Elim(Value h, Value U, Value v) {
    long p = mod(h); Csr u = csr(U); long[] y = longs(v);
    elim(u, y, p, null); return tup(y);
  }
  static void elim(Csr u, long[] y, long p, long[] coef) {
    for (int i = 0; i < u.n; i++) {
      long c = y[(int) u.j[(int) u.p[i]]];
      if (coef != null) coef[i] = c;
      if (c == 0) continue;
      for (int t = (int) u.p[i]; t < u.p[i + 1]; t++) { int j = (int) u.j[t]; y[j] = axpy(-c, u.x[t], y[j], p); }
    }
  }
  @TLAPlusOperator(identifier = "ElimCoeffs", module = "LinAlg", warn = false)
  public static Value ElimCoeffs(Value h, Value U, Value v) {
    long p = mod(h); Csr u = csr(U); long[] y = longs(v), c = new long[u.n];
    elim(u, y, p, c); return tup(c);
  }
  static void elimP(Csr u, long[] piv, long[] ord, long[] y, long p, long[] coef) {
    for (int k = 0; k < ord.length; k++) {
      int i = (int) ord[k] - 1; long c = y[(int) piv[i]];
      if (coef != null) coef[i] = c;
      if (c == 0) continue;
      for (int t = (int) u.p[i]; t < u.p[i + 1]; t++) { int j = (int) u.j[t]; y[j] = axpy(-c, u.x[t], y[j], p); }
    }
  }
  @TLAPlusOperator(identifier = "ElimP", module = "LinAlg", warn = false)
  public static Value ElimP(Value h, Value U, Value piv, Value ord, Value v) {
    long[] y = longs(v); elimP(csr(U), longs(piv), longs(ord), y, mod(h), null); return tup(y);
  }
  @TLAPlusOperator(identifier = "ElimPC", module = "LinAlg", warn = false)
  public static Value ElimPC(Value h, Value U, Value piv, Value ord, Value v) {
    Csr u = csr(U); long[] y = longs(v), c = new long[u.n]; elimP(u, longs(piv), longs(ord), y, mod(h), c); return tup(c);
  }
  @TLAPlusOperator(identifier = "PickRows", module = "LinAlg", warn = false)
  public static Value PickRows(Value A, Value s) {
    Csr a = csr(A); long[] r = longs(s); Csr c = new Csr(); c.n = r.length; c.m = a.m; c.p = new long[c.n + 1];
    int nz = 0; for (int k = 0; k < r.length; k++) { nz += a.p[(int) r[k]] - a.p[(int) r[k] - 1]; c.p[k + 1] = nz; }
    c.j = new long[nz]; c.x = new long[nz]; nz = 0;
    for (int k = 0; k < r.length; k++) for (int t = (int) a.p[(int) r[k] - 1]; t < a.p[(int) r[k]]; t++) { c.j[nz] = a.j[t]; c.x[nz] = a.x[t]; nz++; }
    return rec(c);
  }
  static Value rec(Csr c) {
    return new RecordValue(new UniqueString[] { N, M, V, P, J, X }, new Value[] { mk(c.n), mk(c.m), mk(1), tup(c.p), tup(c.j), tup(c.x) }, false);
  }
  @TLAPlusOperator(identifier = "Stack", module = "LinAlg", warn = false)
  public static Value Stack(Value A, Value B) {
    Csr a = csr(A), b = csr(B), c = new Csr(); c.n = a.n + b.n; c.m = a.m; c.p = new long[c.n + 1];
    int na = (int) a.p[a.n], nb = (int) b.p[b.n];
    for (int i = 0; i <= a.n; i++) c.p[i] = a.p[i];
    for (int i = 0; i < b.n; i++) c.p[a.n + 1 + i] = na + b.p[i + 1];
    c.j = Arrays.copyOf(a.j, na + nb); c.x = Arrays.copyOf(a.x, na + nb);
    System.arraycopy(b.j, 0, c.j, na, nb); System.arraycopy(b.x, 0, c.x, na, nb);
    return rec(c);
  }
  /* rank by sparse elimination: rows bucketed by leftmost column, lightest row first */
  static final Map<Value, long[]> rcache = new IdentityHashMap<>();
  @TLAPlusOperator(identifier = "Rank", module = "LinAlg", warn = false)
  public static Value Rank(Value h, Value A) {
    long p = mod(h);
    synchronized (rcache) {
      long[] c = rcache.get(A);
      if (c != null && c[0] == p) return mk(c[1]);
      long r = rank(csr(A), p);
      if (rcache.size() > 64) rcache.clear();
      rcache.put(A, new long[] { p, r });
      return mk(r);
    }
  }
  static int rank(Csr a, long p) {
    long[] w = new long[a.m];
    long[][] pj = new long[a.m][], px = new long[a.m][];    /* pivotal row of each column: its entries, pivot 1 first */
    Integer[] ord = new Integer[a.n];
    for (int i = 0; i < a.n; i++) ord[i] = i;
    Arrays.sort(ord, (s, t) -> Long.compare(a.p[s + 1] - a.p[s], a.p[t + 1] - a.p[t]));
    int r = 0;
    for (int i : ord) {
      int lo = a.m;
      for (int k = (int) a.p[i]; k < a.p[i + 1]; k++) { int j = (int) a.j[k]; w[j] = cen(w[j] + cen(a.x[k], p), p); if (j < lo) lo = j; }
      for (int j = lo; j < a.m; j++) {
        if (w[j] == 0) continue;
        if (pj[j] != null) {
          long c = -w[j]; long[] J = pj[j], X = px[j];
          for (int k = 0; k < J.length; k++) { int t = (int) J[k]; w[t] = axpy(c, X[k], w[t], p); }
          continue;
        }
        int z = 0; for (int k = j; k < a.m; k++) if (w[k] != 0) z++;
        long s = inv(w[j], p); long[] J = new long[z], X = new long[z]; z = 0;
        for (int k = j; k < a.m; k++) if (w[k] != 0) { J[z] = k; X[z++] = cen(w[k] * s, p); w[k] = 0; }
        pj[j] = J; px[j] = X; r++;
        break;
      }
    }
    return r;
  }

  @TLAPlusOperator(identifier = "Dot", module = "LinAlg", warn = false)
  public static Value Dot(Value h, Value X, Value Y, Value c) {
    long p = mod(h); long[] x = longs(X), y = longs(Y); long s = 0; int n = (int) iv(c);
    for (int i = 0; i < n; i++) s = axpy(x[i], y[i], s, p);
    return mk(s);
  }
  @TLAPlusOperator(identifier = "DVecMat", module = "LinAlg", warn = false)
  public static Value DVecMat(Value h, Value x, Value D, Value y) {
    long p = mod(h); long[] a = longs(x), r = longs(y); Value[] d = seq(D);
    for (int i = 0; i < d.length; i++) if (a[i] != 0) { long[] t = longs(d[i]); for (int c = 0; c < r.length; c++) r[c] = axpy(a[i], t[c], r[c], p); }
    return tup(r);
  }
  @TLAPlusOperator(identifier = "DenseOf", module = "LinAlg", warn = false)
  public static Value DenseOf(Value h, Value nv, Value mv, Value ent) {
    long p = mod(h); int n = (int) iv(nv), m = (int) iv(mv); long[][] D = new long[n][m];
    for (Value e : seq(ent)) { long[] t = longs(e); D[(int) t[0]][(int) t[1]] = cen(D[(int) t[0]][(int) t[1]] + t[2], p); }
    Value[] r = new Value[n]; for (int i = 0; i < n; i++) r[i] = tup(D[i]);
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "ReachCols", module = "LinAlg", warn = false)
  public static Value ReachCols(Value A, Value qv, Value S) {
    int[][] a = adj(A); long[] q = longs(qv); boolean[] s = new boolean[q.length]; ArrayDeque<Integer> f = new ArrayDeque<>();
    for (int c : iset(S)) { s[c] = true; f.add(c); }
    while (!f.isEmpty()) { int c = f.poll(); if (q[c] >= 0) for (int d : a[(int) q[c]]) if (!s[d]) { s[d] = true; f.add(d); } }
    return setOf(s);
  }
  @TLAPlusOperator(identifier = "PatOf", module = "LinAlg", warn = false)
  public static Value PatOf(Value nv, Value ent) {
    int n = (int) iv(nv); List<TreeSet<Integer>> D = new ArrayList<>();
    for (int i = 0; i < n; i++) D.add(null);
    for (Value e : seq(ent)) { Value[] t = seq(e); int i = (int) iv(t[0]); if (i < 0 || i >= n) continue; if (D.get(i) == null) D.set(i, new TreeSet<>()); D.get(i).add((int) iv(t[1])); }
    Value[] r = new Value[n];
    for (int i = 0; i < n; i++) {
      Value[] e = new Value[D.get(i) == null ? 0 : D.get(i).size()]; int z = 0;
      if (D.get(i) != null) for (int j : D.get(i)) e[z++] = mk(j);
      r[i] = new SetEnumValue(e, true);
    }
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "IndexMap", module = "LinAlg", warn = false)
  public static Value IndexMap(Value s) {
    long[] a = longs(s); TreeMap<Integer, Integer> t = new TreeMap<>();
    for (int k = 0; k < a.length; k++) t.putIfAbsent((int) a[k], k + 1);
    Value[] d = new Value[t.size()], e = new Value[t.size()]; int z = 0;
    for (Map.Entry<Integer, Integer> f : t.entrySet()) { d[z] = mk(f.getKey()); e[z++] = mk(f.getValue()); }
    return new FcnRcdValue(d, e, true);
  }

  /* ---- graphs ---- */
  static int[][] adj(Value v) {
    RecordValue r = (RecordValue) v.toRcd();
    int n = (int) iv(field(r, N)); long[] p = longs(field(r, P)), j = longs(field(r, J));
    int[][] a = new int[n][];
    for (int i = 0; i < n; i++) { a[i] = new int[(int) (p[i + 1] - p[i])]; for (int k = 0; k < a[i].length; k++) a[i][k] = (int) j[(int) p[i] + k]; }
    return a;
  }
  static Set<Integer> iset(Value v) {
    Set<Integer> s = new HashSet<>(); SetEnumValue e = (SetEnumValue) v.toSetEnum(); ValueEnumeration it = e.elements(); Value x;
    while ((x = it.nextElement()) != null) s.add((int) iv(x));
    return s;
  }
  static boolean augment(int[][] a, int i, boolean[] c, int[] im, int[] seen, int mark) {
    for (int j : a[i]) if (c[j] && seen[j] != mark) { seen[j] = mark; if (im[j] < 0 || augment(a, im[j], c, im, seen, mark)) { im[j] = i; return true; } }
    return false;
  }
  @TLAPlusOperator(identifier = "MaxMatch", module = "Graph", warn = false)
  public static Value MaxMatch(Value A, Value R, Value C) {
    int[][] a = adj(A); int m = (int) iv(field((RecordValue) A.toRcd(), M)), k = 0, mark = 0;
    boolean[] c = new boolean[m]; int[] im = new int[m], seen = new int[m];
    Arrays.fill(im, -1);
    for (int j : iset(C)) if (j >= 0 && j < m) c[j] = true;
    for (int i : iset(R)) if (augment(a, i, c, im, seen, ++mark)) k++;
    return mk(k);
  }
  @TLAPlusOperator(identifier = "Reach", module = "Graph", warn = false)
  public static Value Reach(Value A) {
    int[][] a = adj(A); int n = a.length; Value[] out = new Value[n];
    for (int i = 0; i < n; i++) {
      boolean[] s = new boolean[n]; ArrayDeque<Integer> q = new ArrayDeque<>(); s[i] = true; q.add(i);
      while (!q.isEmpty()) for (int j : a[q.poll()]) if (!s[j]) { s[j] = true; q.add(j); }
      int c = 0; for (boolean b : s) if (b) c++;
      Value[] e = new Value[c]; c = 0; for (int j = 0; j < n; j++) if (s[j]) e[c++] = mk(j);
      out[i] = new SetEnumValue(e, true);
    }
    return new TupleValue(out);
  }

  static Value setOf(boolean[] s) {
    int c = 0; for (boolean b : s) if (b) c++;
    Value[] e = new Value[c]; c = 0; for (int j = 0; j < s.length; j++) if (s[j]) e[c++] = mk(j);
    return new SetEnumValue(e, true);
  }
  @TLAPlusOperator(identifier = "AdjAll", module = "Graph", warn = false)
  public static Value AdjAll(Value A, Value R) {
    int[][] a = adj(A); boolean[] s = new boolean[(int) iv(field((RecordValue) A.toRcd(), M))];
    for (int i : iset(R)) for (int j : a[i]) s[j] = true;
    return setOf(s);
  }
  @TLAPlusOperator(identifier = "AltClose", module = "Graph", warn = false)
  public static Value AltClose(Value A, Value imv, Value R) {
    int[][] a = adj(A); long[] im = longs(imv); boolean[] s = new boolean[a.length]; ArrayDeque<Integer> q = new ArrayDeque<>();
    for (int i : iset(R)) { s[i] = true; q.add(i); }
    while (!q.isEmpty()) for (int j : a[q.poll()]) { int i = (int) im[j]; if (i != -1 && !s[i]) { s[i] = true; q.add(i); } }
    return setOf(s);
  }
  /* rows (columns when t) that some maximum matching misses: alternating paths from the unmatched ones */
  static Value missed(Value A, boolean t) {
    int[][] a = adj(A); int n = a.length, m = (int) iv(field((RecordValue) A.toRcd(), M));
    if (t) {
      int[] d = new int[m]; for (int[] r : a) for (int j : r) d[j]++;
      int[][] b = new int[m][]; for (int j = 0; j < m; j++) b[j] = new int[d[j]];
      Arrays.fill(d, 0); for (int i = 0; i < n; i++) for (int j : a[i]) b[j][d[j]++] = i;
      a = b; int z = n; n = m; m = z;
    }
    boolean[] c = new boolean[m]; int[] im = new int[m], seen = new int[m], jm = new int[n]; Arrays.fill(im, -1); Arrays.fill(jm, -1); Arrays.fill(c, true);
    for (int i = 0; i < n; i++) augment(a, i, c, im, seen, i + 1);
    for (int j = 0; j < m; j++) if (im[j] >= 0) jm[im[j]] = j;
    boolean[] s = new boolean[n]; ArrayDeque<Integer> q = new ArrayDeque<>();
    for (int i = 0; i < n; i++) if (jm[i] < 0) { s[i] = true; q.add(i); }
    while (!q.isEmpty()) for (int j : a[q.poll()]) if (im[j] >= 0 && !s[im[j]]) { s[im[j]] = true; q.add(im[j]); }
    return setOf(s);
  }
  @TLAPlusOperator(identifier = "VRows", module = "Graph", warn = false)
  public static Value VRows(Value A) { return missed(A, false); }
  @TLAPlusOperator(identifier = "HCols", module = "Graph", warn = false)
  public static Value HCols(Value A) { return missed(A, true); }
  @TLAPlusOperator(identifier = "CSccLabel", module = "Graph", warn = false)
  public static Value CSccLabel(Value succ) {     /* Kosaraju */
    Value[] e = seq(succ); int n = e.length; int[][] a = new int[n][];
    for (int i = 0; i < n; i++) { Set<Integer> s = iset(e[i]); a[i] = new int[s.size()]; int z = 0; for (int j : s) a[i][z++] = j; }
    int[] d = new int[n], pos = new int[n], st = new int[n], out = new int[n]; boolean[] s = new boolean[n]; int t = 0;
    for (int v = 0; v < n; v++) if (!s[v]) {
      int h = 0; st[0] = v; s[v] = true;
      while (h >= 0) { int u = st[h]; if (pos[u] < a[u].length) { int w = a[u][pos[u]++]; if (!s[w]) { s[w] = true; st[++h] = w; } } else { out[t++] = u; h--; } }
    }
    for (int[] r : a) for (int j : r) d[j]++;
    int[][] b = new int[n][]; for (int j = 0; j < n; j++) b[j] = new int[d[j]];
    Arrays.fill(d, 0); for (int i = 0; i < n; i++) for (int j : a[i]) b[j][d[j]++] = i;
    long[] lab = new long[n]; Arrays.fill(lab, -1); List<Integer> comp = new ArrayList<>();
    while (--t >= 0) if (lab[out[t]] < 0) {
      comp.clear(); comp.add(out[t]); lab[out[t]] = 0; int min = out[t];
      for (int z = 0; z < comp.size(); z++) for (int w : b[comp.get(z)]) if (lab[w] < 0) { lab[w] = 0; comp.add(w); min = Math.min(min, w); }
      for (int v : comp) lab[v] = min;
    }
    return tup(lab);
  }
  @TLAPlusOperator(identifier = "BlockOf", module = "Graph", warn = false)
  public static Value BlockOf(Value rv, Value nv) {
    long[] r = longs(rv), out = new long[(int) iv(nv)];
    for (int b = r.length - 2; b >= 0; b--) for (long k = r[b]; k < r[b + 1]; k++) if (k >= 0 && k < out.length) out[(int) k] = b + 1;
    return tup(out);
  }
  @TLAPlusOperator(identifier = "PermInv", module = "Graph", warn = false)
  public static Value PermInv(Value pv) {
    long[] p = longs(pv), out = new long[p.length];
    for (int k = p.length - 1; k >= 0; k--) out[(int) p[k]] = k + 1;
    return tup(out);
  }

  /* ---- SHA-256 ---- */
  static TupleValue btup(byte[] b) { Value[] e = new Value[b.length]; for (int i = 0; i < e.length; i++) e[i] = mk(b[i] & 255); return new TupleValue(e); }
  static byte[] bytes(Value v) { long[] l = longs(v); byte[] b = new byte[l.length]; for (int i = 0; i < b.length; i++) b[i] = (byte) l[i]; return b; }
  @TLAPlusOperator(identifier = "Sha256", module = "Sha", warn = false)
  public static Value Sha256(Value m) throws Exception { return btup(java.security.MessageDigest.getInstance("SHA-256").digest(bytes(m))); }
  @TLAPlusOperator(identifier = "ShaPat", module = "Sha", warn = false)
  public static Value ShaPat(Value av, Value bv, Value lv) throws Exception {
    long[] aw = longs(av), bw = longs(bv); int a = (int) ((aw[0] << 16) | aw[1]), b = (int) ((bw[0] << 16) | bw[1]); int len = (int) iv(lv);
    byte[] pat = new byte[65521]; for (int i = 0; i < pat.length; i++) pat[i] = (byte) ((a * i + b) >>> 3);
    java.security.MessageDigest md = java.security.MessageDigest.getInstance("SHA-256");
    int k = len; while (k > 0) { int c = Math.min(k, pat.length); md.update(pat, 0, c); k -= c; }
    return btup(md.digest());
  }
}
