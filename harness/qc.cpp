#include "ref.hpp"
#include "libcatnip/qc_functions.hpp"
#include <algorithm>
#include <cmath>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
using namespace catnip;
using namespace h;
using namespace std;
namespace catnip {
list<Matrix *> splitMatrixIntoList(const vector<int> &, const Matrix *const, const string &) __attribute__((weak));
list<Matrix *> splitCoefsUpByAtoms(const vector<int> &, Matrix *, const string &) __attribute__((weak));
Matrix *mergeListOfMatrices(list<Matrix *> &, const int, const int, const string &) __attribute__((weak));
Matrix *createNewMatrix(list<Matrix *> &, int, int, const string &) __attribute__((weak));
}  // namespace catnip

static void refused(const Out &o, const string &what) {
  if (!o.refused()) fail("%s: %s instead of being refused", what.c_str(), o.str().c_str());
}
static void normal(const Out &o, const string &what) {
  if (!o.ret()) fail("%s: %s", what.c_str(), o.str().c_str());
}
static string show(const vector<int> &v) {
  string s = "{";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + to_string(v[i]);
  return s + "}";
}
static int total(const vector<int> &v) {
  int t = 0;
  for (int x : v) t += x;
  return t;
}
static Ref sub(const Ref &m, int r0, int nr, int c0, int nc) {
  Ref o(nr, nc);
  for (int i = 1; i <= nr; ++i)
    for (int j = 1; j <= nc; ++j) o.at(i, j) = m.at(r0 + i, c0 + j);
  return o;
}
// all size lists up to the given number of blocks and size, then random ones
static void sizes(int maxn, int maxv, const function<void(const vector<int> &)> &f) {
  for (int n = 1; n <= maxn; ++n) {
    vector<int> v(n, 1);
    for (;;) {
      f(v);
      int i = 0;
      while (i < n && v[i] == maxv) v[i++] = 1;
      if (i == n) break;
      ++v[i];
    }
  }
  mt19937_64 g(seed * 31 + 9);
  for (int t = 0; t < (thorough ? 80 : 15); ++t) {
    vector<int> v(1 + g() % 12);
    for (int &x : v) x = 1 + g() % 6;
    f(v);
  }
}

PROP(C12) {
  sizes(3, 3, [](const vector<int> &d) {
    for (int other : {1, 2, 5})
      for (int dir = 0; dir < 2; ++dir) {
        if (!begin("blocks %s by %s of a matrix with %d %s", show(d).c_str(), dir ? "Rows" : "Columns", other, dir ? "columns" : "rows")) continue;
        ++nontrivial;
        int n = total(d);
        Ref m = dir ? rndref(n, other) : rndref(other, n);
        Matrix x = mk(m);
        string tag = dir ? "Rows" : "Columns";
        list<Matrix *> l;
        for (int way = 0; way < 2; ++way) {
          if (way == 0 ? !splitMatrixIntoList : !splitCoefsUpByAtoms) continue;
          normal(run([&] { l = way == 0 ? splitMatrixIntoList(d, &x, tag) : splitCoefsUpByAtoms(d, &x, tag); }), "split");
          same(x, m, "the matrix that is split");
          check(l.size() == d.size(), "number of blocks");
          int at = 0, i = 0;
          for (Matrix *b : l) {
            same(*b, dir ? sub(m, at, d[i], 0, other) : sub(m, 0, other, at, d[i]), "block " + to_string(i + 1));
            at += d[i++];
          }
          Matrix *r = nullptr;
          if (way == 0 ? !mergeListOfMatrices : !createNewMatrix) continue;
          normal(run([&] { r = way == 0 ? mergeListOfMatrices(l, m.r, m.c, tag) : createNewMatrix(l, m.r, m.c, tag); }), "merge");
          same(*r, m, "split and merged matrix");
          i = at = 0;
          for (Matrix *b : l) {
            same(*b, dir ? sub(m, at, d[i], 0, other) : sub(m, 0, other, at, d[i]), "block " + to_string(i + 1) + " after the merge");
            at += d[i++];
          }
          // any order of the blocks
          vector<Matrix *> v(l.begin(), l.end());
          shuffle(v.begin(), v.end(), rng);
          list<Matrix *> l2(v.begin(), v.end());
          Ref e(m.r, m.c);
          int pos = 0;
          for (Matrix *b : v) {
            Ref y = of(*b);
            for (int p = 1; p <= y.r; ++p)
              for (int q = 1; q <= y.c; ++q) (dir ? e.at(pos + p, q) : e.at(p, pos + q)) = y.at(p, q);
            pos += dir ? y.r : y.c;
          }
          Matrix *r2 = nullptr;
          normal(run([&] { r2 = way == 0 ? mergeListOfMatrices(l2, m.r, m.c, tag) : createNewMatrix(l2, m.r, m.c, tag); }), "merge in another order");
          same(*r2, e, "merge in another order");
          delete r;
          delete r2;
          for (Matrix *b : l) delete b;
        }
        for (const char *bad : {"", "columns", "rows", "Column", "Row", "RowsColumns", "Rows "}) {
          if (splitMatrixIntoList) refused(run([&] { splitMatrixIntoList(d, &x, bad); }), string("split by '") + bad + "'");
          Matrix y = mk(m);
          list<Matrix *> l1{&y};
          if (mergeListOfMatrices) refused(run([&] { mergeListOfMatrices(l1, m.r, m.c, bad); }), string("merge by '") + bad + "'");
        }
      }
  });
}

// the matrix with the blocks of its columns (dim 2) or rows (dim 1) in the order given (atoms 1-based)
static Ref reorder(const Ref &m, const vector<int> &size, const vector<int> &order, int dim) {
  vector<int> off(size.size() + 1, 0);
  for (size_t i = 0; i < size.size(); ++i) off[i + 1] = off[i] + size[i];
  Ref r(m.r, m.c);
  int at = 0;
  for (int a : order)
    for (int k = 1; k <= size[a - 1]; ++k) {
      ++at;
      for (int i = 1; i <= (dim == 2 ? m.r : m.c); ++i)
        if (dim == 2) r.at(i, at) = m.at(i, off[a - 1] + k);
        else r.at(at, i) = m.at(off[a - 1] + k, i);
    }
  return r;
}
struct Case {
  vector<int> size, a, b;   // block sizes, match lists; b unused with one list
  bool two;
};
static void perms(const function<void(const Case &)> &f) {
  // every permutation of up to 4 atoms, every division in two lists, and the single list forms
  for (int n = 1; n <= (thorough ? 6 : 5); ++n) {
    vector<int> p(n);
    for (int i = 0; i < n; ++i) p[i] = i + 1;
    do {
      for (int style = 0; style < (n <= 3 ? 3 : 1); ++style) {
        vector<int> sz(n);
        for (int i = 0; i < n; ++i) sz[i] = style == 0 ? 1 + (i * 2 + n) % 3 : style == 1 ? 1 : i + 1;
        for (int k = 0; k <= n; ++k) {
          if (n == 5 && k != 2 && !thorough) continue;
          f({sz, vector<int>(p.begin(), p.begin() + k), vector<int>(p.begin() + k, p.end()), true});
        }
        f({sz, p, {}, false});
      }
    } while (next_permutation(p.begin(), p.end()));
  }
  mt19937_64 g(seed * 131 + 3);
  for (int t = 0; t < (thorough ? 400 : 80); ++t) {
    int n = 2 + g() % 14;
    vector<int> p(n), sz(n);
    for (int i = 0; i < n; ++i) p[i] = i + 1, sz[i] = 1 + g() % 5;
    shuffle(p.begin(), p.end(), g);
    int k = g() % (n + 1);
    f({sz, vector<int>(p.begin(), p.begin() + k), vector<int>(p.begin() + k, p.end()), true});
    f({sz, p, {}, false});
  }
}
static string descr(const Case &c) {
  return "block sizes " + show(c.size) + " matches " + show(c.a) + (c.two ? " and " + show(c.b) : " (one list)");
}

PROP(C13) {
  perms([](const Case &c) {
    if (!begin("unscramble_Coef %s", descr(c).c_str())) return;
    ++nontrivial;
    int n = total(c.size);
    Ref m = rndref(1 + ncase % 3, n);
    Matrix x = mk(m);
    Matrix *r = nullptr;
    normal(run([&] { r = c.two ? unscramble_Coef(c.a, c.b, c.size, &x) : unscramble_Coef(c.a, c.size, &x); }), "unscramble_Coef");
    vector<int> o = c.a;
    o.insert(o.end(), c.b.begin(), c.b.end());
    same(*r, reorder(m, c.size, o, 2), "unscrambled coefficients");
    same(x, m, "input matrix");
    if (r != &x) delete r;
  });
}

PROP(C14) {
  perms([](const Case &c) {
    if (!begin("unscramble_S %s", descr(c).c_str())) return;
    ++nontrivial;
    int n = total(c.size);
    Ref m = rndref(n, n);
    bool sym = ncase % 4 == 0;
    if (sym)
      for (int i = 1; i <= n; ++i)
        for (int j = 1; j < i; ++j) m.at(i, j) = m.at(j, i);
    Matrix x = mk(m);
    Matrix *r = nullptr;
    normal(run([&] { r = c.two ? unscramble_S(c.a, c.b, c.size, &x) : unscramble_S(c.a, c.size, &x); }), "unscramble_S");
    vector<int> o = c.a;
    o.insert(o.end(), c.b.begin(), c.b.end());
    Ref e = reorder(reorder(m, c.size, o, 2), c.size, o, 1);
    same(*r, e, "unscrambled overlap");
    same(x, m, "input matrix");
    if (r != &x) delete r;
  });
}

PROP(C15) {
  auto test = [](const vector<int> &sz, const vector<int> &a, const vector<int> &b, bool two) {
    Case c{sz, a, b, two};
    if (!begin("invalid matches: %s", descr(c).c_str())) return;
    ++nontrivial;
    int n = total(sz);
    Ref mc = rndref(2, n), ms = rndref(n, n);
    Matrix xc = mk(mc), xs = mk(ms);
    Out o = run([&] { two ? unscramble_Coef(a, b, sz, &xc) : unscramble_Coef(a, sz, &xc); });
    if (!o.threw()) fail("unscramble_Coef %s", o.str().c_str());
    o = run([&] { two ? unscramble_S(a, b, sz, &xs) : unscramble_S(a, sz, &xs); });
    if (!o.threw()) fail("unscramble_S %s", o.str().c_str());
    same(xc, mc, "coefficients"), same(xs, ms, "overlap");
  };
  // every list with at least one bad entry, three atoms
  for (int n = 1; n <= 3; ++n) {
    vector<int> sz(n);
    for (int i = 0; i < n; ++i) sz[i] = 1 + i % 2;
    vector<int> v(n, -1);
    for (;;) {
      bool bad = false;
      for (int i = 0; i < n; ++i) {
        bad |= v[i] < 1 || v[i] > n;
        for (int j = 0; j < i; ++j) bad |= v[i] == v[j];
      }
      if (bad) {
        for (int k = 0; k <= n; ++k) test(sz, vector<int>(v.begin(), v.begin() + k), vector<int>(v.begin() + k, v.end()), true);
        test(sz, v, {}, false);
      }
      int i = 0;
      while (i < n && v[i] == n + 1) v[i++] = -1;
      if (i == n) break;
      ++v[i];
    }
  }
  mt19937_64 g(seed * 17 + 1);
  for (int t = 0; t < (thorough ? 300 : 80); ++t) {
    int n = 4 + g() % 8;
    vector<int> p(n), sz(n);
    for (int i = 0; i < n; ++i) p[i] = i + 1, sz[i] = 1 + g() % 3;
    shuffle(p.begin(), p.end(), g);
    int kind = g() % 4, at = g() % n, at2 = (at + 1 + g() % (n - 1)) % n;
    p[at] = kind == 0 ? -1 : kind == 1 ? p[at2] : kind == 2 ? n + 1 + (int)(g() % 5) : (int)(g() % 2) * -1000000;
    int k = g() % (n + 1);
    test(sz, vector<int>(p.begin(), p.begin() + k), vector<int>(p.begin() + k, p.end()), true);
    test(sz, p, {}, false);
    p[at] = 2147483647;
    test(sz, p, {}, false);
  }
}

PROP(C16) {
  for (int s = 1; s <= 6; ++s)
    for (int p = 1; p <= 6; ++p)
      for (int a = 1; a <= 7; ++a)
        for (int b = 1; b <= 7; ++b)
          for (int cp = 0; cp < 2; ++cp) {
            if (!begin("monomers with %d and %d coefficients, dimer %d, overlap %d columns, counterpoise %d", a, b, p, s, cp)) continue;
            ++nontrivial;
            // row counts differ from the column counts on purpose
            Ref ra = rndref(2, a), rb = rndref(3, b), rp = rndref(1 + (p + 2) % 5, p), rs = rndref(s + (a % 2), s), ro = rndref(rp.r, 1);
            Matrix ma = mk(ra), mb = mk(rb), mp = mk(rp), ms = mk(rs), mo = mk(ro);
            bool bad = s != p || (cp ? a != p || b != p : a + b > p);
            Out o = run([&] { TransferComplex t(&ma, &mb, &mp, {2, 1}, {3, 1}, &ms, &mo, cp); });
            if (bad && !o.threw()) fail("%s instead of throwing", o.str().c_str());
            if (!bad) normal(o, "construction");
            same(ma, ra, "monomer 1"), same(mb, rb, "monomer 2"), same(mp, rp, "dimer"), same(ms, rs, "overlap"), same(mo, ro, "energies");
          }
}

// (J_ab - (e_a+e_b) S_ab / 2) / (1 - S_ab^2); za, zb: padded orbital coefficients
struct J {
  long double j, cond;
};
static J coupling(const vector<double> &za, const vector<double> &zb, const Ref &P, const Ref &S, const Ref &E) {
  int n = P.c;
  long double jab = 0, ea = 0, eb = 0, sab = 0, mag = 0;
  for (int m = 1; m <= P.r; ++m) {
    long double ga = 0, gb = 0, na = 0, nb = 0;
    for (int u = 1; u <= n; ++u)
      for (int v = 1; v <= n; ++v) {
        long double t = (long double)S.at(u, v) * P.at(m, v);
        ga += za[u - 1] * t, gb += zb[u - 1] * t;
        na += fabsl(za[u - 1] * t), nb += fabsl(zb[u - 1] * t);
      }
    long double e = E.at(m, 1);
    jab += gb * e * ga, ea += ga * e * ga, eb += gb * e * gb, sab += gb * ga;
    mag += (na + nb) * (na + nb) * (1 + fabsl(e));
  }
  long double d = 1 - sab * sab;
  J r;
  r.j = (jab - (ea + eb) / 2 * sab) / d;
  r.cond = (1 + mag) * (1 + mag) * (1 + mag) / min<long double>(1, fabsl(d)) / min<long double>(1, fabsl(d));
  return r;
}
static vector<double> pad(const vector<double> &v, int before, int after) {
  vector<double> r(before, 0.0);
  r.insert(r.end(), v.begin(), v.end());
  r.insert(r.end(), after, 0.0);
  return r;
}
static vector<double> rowof(const Ref &m, int i) {
  vector<double> v;
  for (int j = 1; j <= m.c; ++j) v.push_back(m.at(i, j));
  return v;
}
static Ref small(int r, int c) {
  Ref m(r, c);
  for (auto &v : m.e) v = (double)irand(-48, 48) / 64.0;
  return m;
}
static bool closeto(double x, const J &e) { return fabsl(x - e.j) <= 1e-13L * (long double)e.cond + 1e-10L * fabsl(e.j); }

PROP(C19) {
  for (int t = 0; t < (thorough ? 1500 : 400); ++t) {
    if (!begin("random complex %d", t)) continue;
    ++nontrivial;
    bool cp = coin();
    int n1 = irand(1, 4), n2 = irand(1, 4), n = cp ? (n2 = n1) : n1 + n2, mo = irand(1, 6);
    Ref a = small(1, n1), b = small(1, n2), p = small(mo, n), s = small(n, n), e = small(mo, 1);
    if (t % 7 == 0 && n1 == n2) b = a;
    if (t % 5 == 0) for (auto &v : e.e) v *= 20;
    if (t % 11 == 0) for (auto &v : e.e) v = 0;
    Matrix ma = mk(a), mb = mk(b), mp = mk(p), ms = mk(s), me = mk(e);
    J ref = coupling(pad(rowof(a, 1), 0, cp ? 0 : n2), pad(rowof(b, 1), cp ? 0 : n1, 0), p, s, e);
    if (ref.cond > 1e8L) continue;
    for (int again = 0; again < 2; ++again) {
      double j = 0;
      normal(run([&] { j = calculate_transfer_integral(ma, mb, mp, ms, me, cp); }), "calculate_transfer_integral");
      if (!closeto(j, ref)) fail("coupling is %.15g, the formula gives %.15Lg (counterpoise %d)", j, ref.j, cp);
      same(ma, a, "monomer 1 coefficients"), same(mb, b, "monomer 2 coefficients"), same(mp, p, "dimer coefficients");
      same(ms, s, "overlap"), same(me, e, "energies");
    }
  }
}

PROP(C18) {
  for (int t = 0; t < (thorough ? 120 : 30); ++t) {
    bool cp = t % 2;
    mt19937_64 g(seed * 71 + t);
    int n1 = 1 + g() % 3, n2 = 1 + g() % 3, mo1 = 2 + g() % 4, mo2 = 2 + g() % 4, moP = 1 + g() % 5;
    if (cp) n2 = n1;
    int h1 = 1 + g() % (mo1 - 1), h2 = 1 + g() % (mo2 - 1);
    if (t % 6 == 0) h1 = mo1;
    if (t % 6 == 3) h2 = mo2;
    if (t % 6 == 5) h1 = 0;
    int n = cp ? n1 : n1 + n2;
    const char *ty[] = {"HOMO", "LUMO", "homo", "", "HOMOLUMO"};
    for (int k1 = 0; k1 < 5; ++k1)
      for (int k2 = 0; k2 < 5; ++k2)
        for (int q1 = -mo1 - 1; q1 <= mo1 + 1; ++q1)
          for (int q2 = -mo2 - 1; q2 <= mo2 + 1; ++q2) {
            if ((k1 > 1 || k2 > 1) && (q1 || q2)) continue;
            auto row = [&](int k, int q, int h, int mo) -> int {
              if (k == 0) return q > 0 || h + q < 1 ? 0 : h + q;
              if (k == 1) return q < 0 || h + 1 + q > mo ? 0 : h + 1 + q;
              return 0;
            };
            int r1 = row(k1, q1, h1, mo1), r2 = row(k2, q2, h2, mo2);
            if (!r1 && !r2 && (q1 + q2) % 3) continue;
            if (!begin("mon1 %s %d of %d orbitals with HOMO %d, mon2 %s %d of %d orbitals with HOMO %d, counterpoise %d (complex %d)", ty[k1], q1, mo1, h1, ty[k2], q2, mo2, h2, cp, t)) continue;
            ++nontrivial;
            Ref a = small(mo1, n1), b = small(mo2, n2), p = small(moP, n), s = small(n, n), e = small(moP, 1);
            Matrix ma = mk(a), mb = mk(b), mp = mk(p), ms = mk(s), me = mk(e);
            double j = 0;
            Out o = run([&] {
              TransferComplex tc(&ma, &mb, &mp, {mo1, h1}, {mo2, h2}, &ms, &me, cp);
              j = tc.calcJ({{"mon1", ty[k1]}, {"mon2", ty[k2]}}, {{"mon1", q1}, {"mon2", q2}});
            });
            if (r1 && r2) {
              normal(o, "calcJ");
              J ref = coupling(pad(rowof(a, r1), 0, cp ? 0 : n2), pad(rowof(b, r2), cp ? 0 : n1, 0), p, s, e);
              if (ref.cond < 1e8L && !closeto(j, ref))
                fail("coupling is %.15g, that of rows %d and %d is %.15Lg", j, r1, r2, ref.j);
            } else if (!o.threw()) {
              fail("%s instead of throwing", o.str().c_str());
            }
          }
  }
}

PROP(C17) {
  for (int t = 0; t < (thorough ? 600 : 200); ++t) {
    if (!begin("random complex %d", t)) continue;
    ++nontrivial;
    bool cp = t % 2;
    int na = irand(1, 4), nb = irand(1, 4);
    if (cp) nb = na;
    int np = cp ? na : na + nb;
    // distinct coordinates, far enough apart
    auto coords = [&](int n, int base) {
      Ref c(3, n);
      for (int j = 1; j <= n; ++j) {
        c.at(1, j) = 0.5 * (j + base) + (double)irand(0, 99) / 1000.0;
        c.at(2, j) = (double)irand(-3000, 3000) / 997.0;
        c.at(3, j) = (double)irand(-3000, 3000) / 991.0;
      }
      return c;
    };
    Ref call = coords(np, 0);
    vector<int> pos(np);          // dimer position of each atom in monomer order
    for (int i = 0; i < np; ++i) pos[i] = i + 1;
    shuffle(pos.begin(), pos.end(), rng);
    vector<int> pos2(np);         // monomer 2's own order (counterpoise: it lists all atoms)
    for (int i = 0; i < np; ++i) pos2[i] = i + 1;
    shuffle(pos2.begin(), pos2.end(), rng);
    vector<int> szo(np);          // basis functions per atom, monomer order
    for (int &x : szo) x = irand(1, 3);
    int n = total(szo);
    Ref c1(3, cp ? np : na), c2(3, cp ? np : nb), cP(3, np);
    vector<int> szP(np), sz2;
    if (cp) sz2.resize(np);
    for (int a = 1; a <= np; ++a) {
      szP[pos[a - 1] - 1] = szo[a - 1];
      if (cp) sz2[pos2[a - 1] - 1] = szo[a - 1];
      for (int d = 1; d <= 3; ++d) {
        cP.at(d, pos[a - 1]) = call.at(d, a);
        if (cp) c1.at(d, a) = call.at(d, a), c2.at(d, pos2[a - 1]) = call.at(d, a);
        else if (a <= na) c1.at(d, a) = call.at(d, a);
        else c2.at(d, a - na) = call.at(d, a);
      }
    }
    int n1 = 0, n2 = 0;
    for (int a = 0; a < np; ++a) (cp || a < na ? n1 : n2) += szo[a];
    if (cp) n2 = n1;
    else {
      for (int a = na; a < np; ++a) sz2.push_back(szo[a]);
    }
    int moP = irand(1, 4);
    Ref a = small(2, n1), b = small(2, n2), p = small(moP, n), s = small(n, n), e = small(moP, 1);
    // scrambled inputs: the blocks of the dimer in its own order
    vector<int> inv(np), inv2(np);
    for (int i = 0; i < np; ++i) inv[pos[i] - 1] = i + 1, inv2[pos2[i] - 1] = i + 1;
    Ref ps = reorder(p, szo, inv, 2), ss = reorder(reorder(s, szo, inv, 2), szo, inv, 1), bs = cp ? reorder(b, szo, inv2, 2) : b;
    bool broken = t % 5 == 4;
    if (broken) {
      int which = irand(0, 2);
      Ref &c = which == 0 ? c1 : which == 1 ? c2 : cP;
      c.at(irand(1, 3), irand(1, c.c)) += 0.01;
    }
    Matrix ma = mk(a), mb = mk(bs), mp = mk(ps), ms = mk(ss), me = mk(e), m1 = mk(c1), m2 = mk(c2), mP = mk(cP);
    double j = 0;
    Out o = run([&] {
      TransferComplex tc(&ma, &mb, &mp, {2, 1}, {2, 1}, &ms, &me, cp);
      tc.unscramble(m1, m2, mP, szP, sz2);
      j = tc.calcJ({{"mon1", "HOMO"}, {"mon2", "LUMO"}}, {{"mon1", 0}, {"mon2", 0}});
    });
    string d = "atoms " + to_string(na) + "+" + to_string(nb) + " counterpoise " + to_string(cp) + " dimer order " + show(pos) + " monomer 2 order " + show(pos2) + " basis functions " + show(szo);
    if (broken) {
      if (!o.threw()) fail("%s: %s instead of throwing for an atom without a match", d.c_str(), o.str().c_str());
      continue;
    }
    if (!o.ret()) fail("%s: %s", d.c_str(), o.str().c_str());
    J ref = coupling(pad(rowof(a, 1), 0, cp ? 0 : n2), pad(rowof(b, 2), cp ? 0 : n1, 0), p, s, e);
    if (ref.cond < 1e9L && !closeto(j, ref)) fail("%s: coupling of the unscrambled complex is %.15g, that of the ordered one is %.15Lg", d.c_str(), j, ref.j);
    same(ma, a, "monomer 1"), same(mb, bs, "monomer 2 as given"), same(mp, ps, "dimer as given"), same(ms, ss, "overlap as given"), same(me, e, "energies");
    same(m1, c1, "coordinates 1"), same(m2, c2, "coordinates 2"), same(mP, cP, "dimer coordinates");
  }
}

PROP(C20) {
  auto test = [](const vector<double> &a, const vector<double> &b, bool nobeta) {
    if (!begin("findRank of %d alpha and %d beta energies%s", (int)a.size(), (int)b.size(), nobeta ? " (no beta matrix)" : "")) return;
    ++nontrivial;
    Ref ra((int)a.size(), 1), rb((int)b.size(), 1);
    ra.e = a, rb.e = b;
    Matrix ma = mk(ra), mb = nobeta ? Matrix(0) : mk(rb);
    unordered_map<int, pair<double, string>> r;
    normal(run([&] { r = findRank(ma, mb); }), "findRank");
    same(ma, ra, "alpha energies");
    if (!nobeta) same(mb, rb, "beta energies");
    size_t n = a.size() + (nobeta ? 0 : b.size());
    if (r.size() != n) fail("%zu ranks for %zu energies", r.size(), n);
    multiset<pair<double, string>> want, got;
    for (double x : a) want.insert({x, "Alpha"});
    if (!nobeta) for (double x : b) want.insert({x, "Beta"});
    for (size_t k = 1; k <= n; ++k) {
      if (!r.count((int)k)) fail("rank %zu is missing", k);
      got.insert(r[(int)k]);
      if (k > 1 && r[(int)k - 1].first > r[(int)k].first) fail("energy decreases from rank %zu to %zu", k - 1, k);
    }
    check(want == got, "the ranked energies are not the given ones");
  };
  for (int n = 1; n <= 3; ++n)
    for (int m = 0; m <= 3; ++m)
      for (int t = 0; t < 8; ++t) {
        mt19937_64 g(seed * 7 + n * 100 + m * 10 + t);
        vector<double> a(n), b(m ? m : 1);
        for (auto &x : a) x = (double)(int)(g() % 5) - 2;
        for (auto &x : b) x = (double)(int)(g() % 5) - 2;
        test(a, b, m == 0);
      }
  mt19937_64 g(seed * 7 + 5);
  for (int t = 0; t < (thorough ? 200 : 40); ++t) {
    vector<double> a(1 + g() % 60), b(1 + g() % 60);
    for (auto &x : a) x = (double)(int)(g() % 2000) / 64 - 20;
    for (auto &x : b) x = (double)(int)(g() % 2000) / 64 - 20;
    if (t % 4 == 0) sort(a.begin(), a.end()), sort(b.rbegin(), b.rend());
    test(a, b, t % 3 == 0);
  }
}
