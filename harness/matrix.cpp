#include "ref.hpp"
#include <cmath>
#include <sstream>
using namespace catnip;
using namespace h;
using namespace std;
namespace catnip { string double_tos(double, int) __attribute__((weak)); }

static void shapes(const function<void(int, int, int)> &f) {
  for (int r = 1; r <= 4; ++r)
    for (int c = 1; c <= 4; ++c)
      for (int s = 1; s <= 3; ++s) f(r, c, s);
  int n = thorough ? 60 : 12;
  mt19937_64 g(seed * 77 + 5);
  for (int t = 0; t < n; ++t) f(1 + g() % 13, 1 + g() % 13, 1 + g() % 5);
}
static void refused(const Out &o, const string &what) {
  if (!o.refused()) fail("%s: %s instead of being refused", what.c_str(), o.str().c_str());
}
static void normal(const Out &o, const string &what) {
  if (!o.ret()) fail("%s: %s", what.c_str(), o.str().c_str());
}

PROP(C01) {
  shapes([](int r, int c, int s) {
    if (!begin("element access of a %dx%dx%d matrix", r, c, s)) return;
    ++nontrivial;
    Ref m = rndref(r, c, s, vary());
    Matrix x = mk(m);
    same(x, m, "after element-wise filling");
    check(x.total_elem() == r * c * s, "total_elem");
    double v = 1e6 + 0.1;
    for (int i = 0; i <= r + 1; ++i)
      for (int j = 0; j <= c + 1; ++j) {
        for (int k = 0; k <= s + 1; ++k) {
          string w = "(" + to_string(i) + "," + to_string(j) + "," + to_string(k) + ")";
          double got = 0;
          Out o = run([&] { x.set_elem(v, i, j, k); });
          if (m.in(i, j, k)) {
            normal(o, "set_elem" + w);
            m.at(i, j, k) = v;
            o = run([&] { got = x.get_elem(i, j, k); });
            normal(o, "get_elem" + w);
            check(got == v, "get_elem" + w + " does not return the value just written");
          } else {
            refused(o, "set_elem" + w);
            refused(run([&] { got = x.get_elem(i, j, k); }), "get_elem" + w);
          }
          v += 1;
        }
        string w = "(" + to_string(i) + "," + to_string(j) + ")";
        double got = 0;
        double *p = nullptr;
        Out o = run([&] { x.set_elem(v, i, j); });
        Out o2 = run([&] { got = x.get_elem(i, j); });
        Out o3 = run([&] { p = x.get_elem_ptr(i, j); });
        if (m.in(i, j)) {
          normal(o, "set_elem" + w), normal(o2, "get_elem" + w), normal(o3, "get_elem_ptr" + w);
          m.at(i, j, 1) = v;
          check(got == v, "get_elem" + w + " does not return the value just written");
          check(*p == v, "get_elem_ptr" + w + " does not point to the element");
          *p = v + 0.5;
          m.at(i, j, 1) = v + 0.5;
          check(x.get_elem(i, j, 1) == v + 0.5, "writing through get_elem_ptr" + w);
        } else {
          refused(o, "set_elem" + w), refused(o2, "get_elem" + w), refused(o3, "get_elem_ptr" + w);
        }
        v += 1;
        same(x, m, "after the accesses at " + w);
      }
    for (int i = -1; i <= r + 1; ++i) {
      double got = 0;
      string w = "(" + to_string(i) + ")";
      Out o = run([&] { x.set_elem(v, i); });
      Out o2 = run([&] { got = x.get_elem(i); });
      if (m.in(i, 1)) {
        normal(o, "set_elem" + w), normal(o2, "get_elem" + w);
        m.at(i, 1, 1) = v;
        check(got == v, "get_elem" + w);
      } else {
        refused(o, "set_elem" + w), refused(o2, "get_elem" + w);
      }
      v += 1;
    }
    x.set_elem(v);
    m.at(1, 1, 1) = v;
    check(x.get_elem() == v, "get_elem()");
    same(x, m, "at the end");
    for (int bad : {-2147483647, -1000000, 1000000, 2147483647}) {
      refused(run([&] { x.get_elem(bad, 1, 1); }), "far index");
      refused(run([&] { x.get_elem(1, bad, 1); }), "far index");
      refused(run([&] { x.get_elem(1, 1, bad); }), "far index");
      refused(run([&] { x.set_elem(1, bad, 1, 1); }), "far index");
      refused(run([&] { x.set_elem(1, 1, bad, 1); }), "far index");
      refused(run([&] { x.set_elem(1, 1, 1, bad); }), "far index");
      refused(run([&] { x.get_elem(bad, 1); }), "far index");
      refused(run([&] { x.get_elem(1, bad); }), "far index");
      refused(run([&] { x.set_elem(1, bad, 1); }), "far index");
      refused(run([&] { x.set_elem(1, 1, bad); }), "far index");
      refused(run([&] { x.get_elem(bad); }), "far index");
      refused(run([&] { x.set_elem(1, bad); }), "far index");
    }
  });
}

PROP(C02) {
  shapes([](int r, int c, int s) {
    if (!begin("constructors for %dx%dx%d", r, c, s)) return;
    ++nontrivial;
    same(Matrix(r), Ref(r, 1, 1), "Matrix(r)");
    same(Matrix(r, c), Ref(r, c, 1), "Matrix(r,c)");
    same(Matrix(r, c, s), Ref(r, c, s), "Matrix(r,c,s)");
    same(Matrix(), Ref(1, 1, 1), "Matrix()");
    vector<double> v;
    vector<int> w;
    Ref a(r, 1, 1), b(r, 1, 1);
    for (int i = 1; i <= r; ++i) {
      v.push_back(i * 1.5 - 3), w.push_back(7 - 2 * i);
      a.at(i, 1) = v.back(), b.at(i, 1) = w.back();
    }
    same(Matrix(v), a, "Matrix(vector<double>)");
    same(Matrix(w), b, "Matrix(vector<int>)");
    Ref g = rndref(r, c, 1, vary());
    vector<vector<double>> vv(r, vector<double>(c));
    for (int i = 0; i < r; ++i)
      for (int j = 0; j < c; ++j) vv[i][j] = g.at(i + 1, j + 1);
    same(Matrix(vv), g, "Matrix(vector of rows)");
    for (int i = 0; i < r && r > 1; ++i)
      for (int d : {-1, 1}) {
        auto u = vv;
        u[i].resize(c + d, 3.0);
        Out o = run([&] { Matrix x(u); });
        if (!o.threw()) fail("row %d has %d entries instead of %d: %s", i + 1, c + d, c, o.str().c_str());
      }
  });
  if (begin("sizes that are not positive")) {
    same(Matrix(0), Ref(0, 0, 0), "Matrix(0)");
    for (int z : {0, -1, -7, -2147483647}) {
      if (z) refused(run([&] { Matrix x(z); }), "Matrix(r) with r=" + to_string(z));
      refused(run([&] { Matrix x(z, 2); }), "rows " + to_string(z));
      refused(run([&] { Matrix x(2, z); }), "cols " + to_string(z));
      refused(run([&] { Matrix x(z, 2, 2); }), "rows " + to_string(z));
      refused(run([&] { Matrix x(2, z, 2); }), "cols " + to_string(z));
      refused(run([&] { Matrix x(2, 2, z); }), "shelves " + to_string(z));
    }
    Out o = run([&] { Matrix x((vector<vector<double>>())); });
    check(o.threw(), "no rows at all: " + o.str());
  }
}

static Ref resized(const Ref &m, int r, int c, int s) {
  Ref n(r, c, s);
  for (int i = 1; i <= r; ++i)
    for (int j = 1; j <= c; ++j)
      for (int k = 1; k <= s; ++k)
        if (m.in(i, j, k)) n.at(i, j, k) = m.at(i, j, k);
  return n;
}
PROP(C03) {
  shapes([](int r, int c, int s) {
    Ref m0;
    for (int x = 1; x <= 6; ++x) {
      if (begin("resizing a %dx%dx%d matrix to %d", r, c, s, x)) {
        ++nontrivial;
        Ref m = rndref(r, c, s, vary());
        Matrix a = mk(m), b = mk(m), d = mk(m);
        a.set_rows(x);
        same(a, resized(m, x, c, s), "set_rows");
        b.set_cols(x);
        same(b, resized(m, r, x, s), "set_cols");
        d.set_shel(x);
        same(d, resized(m, r, c, x), "set_shel");
        for (int y = 1; y <= 6; ++y) {
          Matrix e = mk(m);
          e.resize(x, y);
          same(e, resized(m, x, y, 1), "resize to " + to_string(x) + "x" + to_string(y));
          // sequences
          Matrix f = mk(m);
          f.set_cols(x), f.set_rows(y), f.set_shel(2), f.set_elem(9.5, y, x, 2);
          Ref n = resized(resized(resized(m, r, x, s), y, x, s), y, x, 2);
          n.at(y, x, 2) = 9.5;
          same(f, n, "cols, rows, shelves in turn");
        }
      }
    }
    if (begin("refused sizes of a %dx%dx%d matrix", r, c, s)) {
      Ref m = rndref(r, c, s, vary());
      Matrix a = mk(m);
      for (int z : {-1, -5, -2147483647}) {
        refused(run([&] { a.set_rows(z); }), "set_rows"), refused(run([&] { a.set_cols(z); }), "set_cols");
        refused(run([&] { a.set_shel(z); }), "set_shel"), refused(run([&] { a.resize(z, 1); }), "resize");
        refused(run([&] { a.resize(1, z); }), "resize");
      }
      refused(run([&] { a.resize(0, 1); }), "resize"), refused(run([&] { a.resize(1, 0); }), "resize");
      same(a, m, "after the refused sizes");
      a.set_rows(0);
      check(a.get_rows() == 0 && a.get_cols() == c && a.get_shel() == s, "set_rows(0)");
      a.set_rows(2);
      same(a, Ref(2, c, s), "rows 0 and back to 2");
    }
  });
}

PROP(C04) {
  shapes([](int r, int c, int s) {
    for (int t = 0; t < 5; ++t) {
      if (!begin("copies of a %dx%dx%d matrix, destination style %d", r, c, s, t)) continue;
      ++nontrivial;
      Ref m = rndref(r, c, s, vary());
      Matrix x = mk(m);
      Ref o = t == 0 ? Ref(0, 0, 0) : t == 1 ? rndref(1, 1, 1, vary()) : t == 2 ? rndref(c, r, s, vary()) : t == 3 ? rndref(r + 2, c + 1, s + 1) : rndref(r, c, s, vary());
      Matrix y = mk(o);
      Matrix cp(x), cc = Matrix_copy(x);
      Matrix &ret = (y = x);
      check(&ret == &y, "operator= returns the destination");
      Matrix *self = &y;
      y = *self;
      for (Matrix *z : {&cp, &cc, &y}) {
        same(*z, m, "copy");
        same(x, m, "original after copying");
        Ref m2 = m;
        m2.at(r, c, s) = 777;
        z->set_elem(777, r, c, s);
        same(*z, m2, "copy after a write to it");
        same(x, m, "original after a write to the copy");
        z->set_elem(m.at(r, c, s), r, c, s);
        x.set_elem(888, 1, 1, 1);
        same(*z, m, "copy after a write to the original");
        x.set_elem(m.at(1, 1, 1), 1, 1, 1);
        z->set_rows(r + 1);
        z->set_cols(c + 2);
        same(x, m, "original after resizing the copy");
        x.set_rows(r + 3), x.set_rows(r);
        same(*z, resized(m, r + 1, c + 2, s), "copy after resizing the original");
      }
      Matrix e(0), f(2, 2);
      f = e;
      same(f, Ref(0, 0, 0), "assignment of an empty matrix");
      Matrix g(e);
      same(g, Ref(0, 0, 0), "copy of an empty matrix");
      f = x;
      same(f, m, "assignment to an empty matrix");
    }
  });
}

PROP(C05) {
  shapes([](int r, int c, int s) {
    if (!begin("lines of a %dx%dx%d matrix", r, c, s)) return;
    ++nontrivial;
    Ref m = rndref(r, c, s, vary());
    Matrix x = mk(m);
    for (int i = -1; i <= r + 2; ++i) {
      vector<double> v;
      Matrix g(1);
      string w = "row " + to_string(i);
      Out o = run([&] { v = x.get_row(i); });
      Out o2 = run([&] { g = x.getRow(i); });
      if (i >= 1 && i <= r) {
        normal(o, w), normal(o2, w);
        check((int)v.size() == c, w + ": length of get_row");
        Ref e(1, c, s);
        for (int j = 1; j <= c; ++j) {
          check(v[j - 1] == m.at(i, j, 1), w + ": get_row");
          for (int k = 1; k <= s; ++k) e.at(1, j, k) = m.at(i, j, k);
        }
        same(g, e, "getRow " + w);
      } else {
        refused(o, "get_row of " + w), refused(o2, "getRow of " + w);
      }
      for (int d = -1; d <= 1; ++d) {
        if (c + d < 0) continue;
        vector<double> n(c + d);
        for (auto &z : n) z = (double)irand(5000, 90000);
        o = run([&] { x.set_row(n, i); });
        if (d == 0 && i >= 1 && i <= r) {
          normal(o, "set_row of " + w);
          for (int j = 1; j <= c; ++j) m.at(i, j, 1) = n[j - 1];
        } else refused(o, "set_row of " + w + " with " + to_string(c + d) + " values");
        same(x, m, "after set_row of " + w);
      }
    }
    for (int j = -1; j <= c + 2; ++j) {
      vector<double> v;
      Matrix g(1);
      string w = "col " + to_string(j);
      Out o = run([&] { v = x.get_col(j); });
      Out o2 = run([&] { g = x.getCol(j); });
      if (j >= 1 && j <= c) {
        normal(o, w), normal(o2, w);
        check((int)v.size() == r, w + ": length of get_col");
        Ref e(r, 1, s);
        for (int i = 1; i <= r; ++i) {
          check(v[i - 1] == m.at(i, j, 1), w + ": get_col");
          for (int k = 1; k <= s; ++k) e.at(i, 1, k) = m.at(i, j, k);
        }
        same(g, e, "getCol " + w);
      } else {
        refused(o, "get_col of " + w), refused(o2, "getCol of " + w);
      }
      for (int d = -1; d <= 1; ++d) {
        if (r + d < 0) continue;
        vector<double> n(r + d);
        for (auto &z : n) z = (double)irand(5000, 90000);
        o = run([&] { x.set_col(n, j); });
        if (d == 0 && j >= 1 && j <= c) {
          normal(o, "set_col of " + w);
          for (int i = 1; i <= r; ++i) m.at(i, j, 1) = n[i - 1];
        } else refused(o, "set_col of " + w + " with " + to_string(r + d) + " values");
        same(x, m, "after set_col of " + w);
      }
    }
  });
}

PROP(C06) {
  int mx = thorough ? 8 : 6;
  for (int r = 1; r <= mx; ++r)
    for (int c = 1; c <= mx; ++c) {
      if (!begin("swapping and moving lines of a %dx%d matrix", r, c)) continue;
      ++nontrivial;
      Ref m = rndref(r, c, 1, vary());
      for (int a = 1; a <= r; ++a)
        for (int b = 1; b <= r; ++b) {
          string w = " " + to_string(a) + " " + to_string(b);
          Matrix x = mk(m), y = mk(m);
          normal(run([&] { x.swap_row(a, b); }), "swap_row" + w);
          normal(run([&] { y.move_row(a, b); }), "move_row" + w);
          vector<int> p, q;
          for (int i = 1; i <= r; ++i) p.push_back(i == a ? b : i == b ? a : i);
          for (int i = 1; i <= r; ++i) if (i != a) q.push_back(i);
          q.insert(q.begin() + (b - 1), a);
          Ref e(r, c), f(r, c);
          for (int i = 1; i <= r; ++i)
            for (int j = 1; j <= c; ++j) e.at(i, j) = m.at(p[i - 1], j), f.at(i, j) = m.at(q[i - 1], j);
          same(x, e, "swap_row" + w);
          same(y, f, "move_row" + w);
        }
      for (int a = 1; a <= c; ++a)
        for (int b = 1; b <= c; ++b) {
          string w = " " + to_string(a) + " " + to_string(b);
          Matrix x = mk(m), y = mk(m);
          normal(run([&] { x.swap_col(a, b); }), "swap_col" + w);
          normal(run([&] { y.move_col(a, b); }), "move_col" + w);
          vector<int> p, q;
          for (int i = 1; i <= c; ++i) p.push_back(i == a ? b : i == b ? a : i);
          for (int i = 1; i <= c; ++i) if (i != a) q.push_back(i);
          q.insert(q.begin() + (b - 1), a);
          Ref e(r, c), f(r, c);
          for (int i = 1; i <= r; ++i)
            for (int j = 1; j <= c; ++j) e.at(i, j) = m.at(i, p[j - 1]), f.at(i, j) = m.at(i, q[j - 1]);
          same(x, e, "swap_col" + w);
          same(y, f, "move_col" + w);
        }
    }
}

PROP(C07) {
  shapes([](int r, int c, int s) {
    if (!begin("transpose of a %dx%dx%d matrix", r, c, s)) return;
    ++nontrivial;
    Ref m = rndref(r, c, s, vary());
    Matrix x = mk(m), y(1);
    Out o = run([&] { y = x.invert(); });
    if (s != 1) {
      refused(o, "invert");
    } else {
      normal(o, "invert");
      Ref e(c, r);
      for (int i = 1; i <= r; ++i)
        for (int j = 1; j <= c; ++j) e.at(j, i) = m.at(i, j);
      same(y, e, "invert");
      same(y.invert(), m, "transpose of the transpose");
    }
    same(x, m, "operand");
  });
}

PROP(C08) {
  int mx = thorough ? 6 : 4;
  for (int n = 1; n <= mx; ++n)
    for (int m = 1; m <= mx; ++m)
      for (int l = 1; l <= mx; ++l)
        for (int p = 1; p <= mx; ++p)
          for (int sa = 1; sa <= 2; ++sa)
            for (int sb = 1; sb <= 2; ++sb) {
              if ((sa > 1 || sb > 1) && (n > 2 || p > 2)) continue;
              bool fit = m == l && sa == 1 && sb == 1;
              for (int st = 0; st < (fit ? 4 : 1); ++st) {
              if (!begin("%dx%dx%d times %dx%dx%d (values %d)", n, m, sa, l, p, sb, st)) continue;
              ++nontrivial;
              Ref a = rndref(n, m, sa, st == 3 ? 2 : st & 1), b = rndref(l, p, sb, st == 3 ? 2 : st != 2);
              Matrix x = mk(a), y = mk(b), z(1);
              Out o = run([&] { z = x * y; });
              if (m != l || sa != 1 || sb != 1) {
                refused(o, "product");
              } else {
                normal(o, "product");
                Ref e(n, p);
                for (int i = 1; i <= n; ++i)
                  for (int j = 1; j <= p; ++j)
                    for (int k = 1; k <= m; ++k) e.at(i, j) += a.at(i, k) * b.at(k, j);
                same(z, e, "product");
              }
              same(x, a, "left operand"), same(y, b, "right operand");
              if (n == m) {
                Matrix w(1);
                if (sa == 1) {
                  w = x * x;
                  Ref e(n, n);
                  for (int i = 1; i <= n; ++i)
                    for (int j = 1; j <= n; ++j)
                      for (int k = 1; k <= n; ++k) e.at(i, j) += a.at(i, k) * a.at(k, j);
                  same(w, e, "square");
                }
              }
              }
            }
}

PROP(C09) {
  for (int r = 1; r <= 9; ++r)
    for (int c = 1; c <= 9; ++c)
      for (int s = 1; s <= 2; ++s) {
        if (!begin("diagonal matrix from %dx%dx%d", r, c, s)) continue;
        ++nontrivial;
        Ref m = rndref(r, c, s, vary());
        Matrix x = mk(m), y(1);
        Out o = run([&] { y = Matrix_diag(x); });
        if ((r > 1 && c > 1) || s > 1) check(o.threw(), "expected an exception: " + o.str());
        else {
          normal(o, "Matrix_diag");
          int n = max(r, c);
          Ref e(n, n);
          for (int i = 1; i <= n; ++i) e.at(i, i) = r >= c ? m.at(i, 1) : m.at(1, i);
          same(y, e, "Matrix_diag");
        }
        same(x, m, "operand");
      }
}

PROP(C10) {
  int mx = thorough ? 4 : 3;
  for (int r = 1; r <= mx; ++r)
    for (int c = 1; c <= mx; ++c)
      for (int s = 1; s <= 3; ++s)
        for (int r2 = 1; r2 <= mx; ++r2)
          for (int c2 = 1; c2 <= mx; ++c2)
            for (int s2 = max(1, s - 1); s2 <= s; ++s2) {
              if (!begin("concatenating %dx%dx%d and %dx%dx%d", r, c, s, r2, c2, s2)) continue;
              ++nontrivial;
              Ref a = rndref(r, c, s, vary()), b = rndref(r2, c2, s2, vary());
              Matrix x = mk(a), y = mk(b);
              for (int byrow = 0; byrow < 2; ++byrow) {
                Matrix z(1);
                bool fits = s == s2 && (byrow ? c == c2 : r == r2);
                Out o = run([&] { z = byrow ? Matrix_concatenate_rows(x, y) : Matrix_concatenate_cols(x, y); });
                if (fits) {
                  normal(o, "concatenation");
                  Ref e(byrow ? r + r2 : r, byrow ? c : c + c2, s);
                  for (int i = 1; i <= e.r; ++i)
                    for (int j = 1; j <= e.c; ++j)
                      for (int k = 1; k <= s; ++k)
                        e.at(i, j, k) = byrow ? (i <= r ? a.at(i, j, k) : b.at(i - r, j, k)) : (j <= c ? a.at(i, j, k) : b.at(i, j - c, k));
                  same(z, e, byrow ? "by rows" : "by columns");
                } else if (o.ret()) {
                  // no combined matrix: nothing that has the size of the combination
                  bool combined = z.get_rows() * z.get_cols() * z.get_shel() > 1;
                  check(!combined, "operands that do not fit were combined");
                }
                same(x, a, "first operand"), same(y, b, "second operand");
              }
            }
}

static bool agree(double a, double b, int sf) {
  double t = pow(10.0, sf);
  return round(a * t) == round(b * t);
}
PROP(C11) {
  // texts of rounded numbers
  for (int sf = 0; sf <= 6; ++sf)
    for (int t = 0; t < (thorough ? 4000 : 600); ++t) {
      if (!begin("rounding with %d decimals, sample %d", sf, t)) continue;
      double u = pow(10.0, -sf);
      double a, b;
      int st = t % 6;
      // stay away from ties: x = (n + f) * u with f in [-0.4, 0.4]
      auto val = [&](long n, double f) { return ((double)n + f) * u; };
      long n = st < 3 ? irand(-12, 12) : st == 3 ? irand(-999, 999) : st == 4 ? irand(-99999999, 99999999) : 0;
      a = val(n, (double)irand(-4, 4) / 10.0);
      b = val(n + (coin() ? 0 : irand(-1, 1)), (double)irand(-4, 4) / 10.0);
      if (st == 5) a = val(0, (double)irand(-4, 4) / 10), b = coin() ? -0.0 : val(irand(-1, 1), 0.3);
      ++nontrivial;
      if (!double_tos) continue;
      bool eq = double_tos(a, sf) == double_tos(b, sf);
      if (eq != agree(a, b, sf))
        fail("values %.17g and %.17g %s", a, b, eq ? "are taken as equal" : "are taken as different");
    }
  int N = thorough ? 4000 : 700;
  for (int t = 0; t < N; ++t) {
    if (!begin("matching, sample %d", t)) continue;
    ++nontrivial;
    int r = irand(1, 6), c = irand(1, 4), r2 = irand(1, 7), sf = irand(0, 5);
    int c2 = irand(0, 9) ? c : irand(1, 4), s = irand(0, 19) ? 1 : 2, s2 = irand(0, 19) ? 1 : 2;
    bool byrow = coin();
    double u = pow(10.0, -sf);
    Ref a = rndref(r, c, s), b = rndref(r2, c2, s2);
    for (auto &v : a.e) v = ((double)irand(-1, 1) + (double)irand(-4, 4) / 10) * u;
    for (auto &v : b.e) v = ((double)irand(-1, 1) + (double)irand(-4, 4) / 10) * u;
    // planted agreeing and nearly agreeing lines
    if (c == c2)
      for (int i = 1; i <= r2; ++i)
        if (coin()) {
          int o = irand(1, r);
          for (int j = 1; j <= c; ++j) b.at(i, j) = a.at(o, j);
          if (irand(0, 2) == 0) b.at(i, irand(1, c)) += u;
        }
    auto T = [](const Ref &m) {
      Ref n(m.c, m.r, m.s);
      for (int i = 1; i <= m.r; ++i)
        for (int j = 1; j <= m.c; ++j)
          for (int k = 1; k <= m.s; ++k) n.at(j, i, k) = m.at(i, j, k);
      return n;
    };
    Matrix x = mk(byrow ? a : T(a)), y = mk(byrow ? b : T(b));
    vector<int> v;
    Out o = run([&] { v = byrow ? x.matchRow(y, sf) : x.matchCol(y, sf); });
    cur += " " + show(a) + " against " + show(b) + " decimals " + to_string(sf) + (byrow ? " rows" : " columns");
    if (s != 1 || s2 != 1 || c != c2) {
      refused(o, "matching");
      continue;
    }
    normal(o, "matching");
    check((int)v.size() == r, "one entry per line");
    for (int i = 1; i <= r; ++i) {
      auto ag = [&](int ii) {
        for (int j = 1; j <= c; ++j)
          if (!agree(a.at(i, j), b.at(ii, j), sf)) return false;
        return true;
      };
      if (v[i - 1] == -1) {
        for (int ii = 1; ii <= r2; ++ii) check(!ag(ii), "line " + to_string(i) + " agrees with line " + to_string(ii) + " but -1 is reported");
      } else check(v[i - 1] >= 1 && v[i - 1] <= r2 && ag(v[i - 1]), "line " + to_string(i) + ": reported line " + to_string(v[i - 1]) + " does not agree");
    }
    same(x, byrow ? a : T(a), "operand"), same(y, byrow ? b : T(b), "operand");
  }
}
