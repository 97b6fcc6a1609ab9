#include "ref.hpp"
#include "libcatnip/io/file_readers/logreader.hpp"
#include "libcatnip/io/file_readers/punreader.hpp"
#include <cmath>
#include <map>
#include <memory>
using namespace catnip;
using namespace h;
using namespace std;

static void normal(const Out &o, const string &what) {
  if (!o.ret()) fail("%s: %s", what.c_str(), o.str().c_str());
}
static void rejected(const Out &o, const string &what) {
  if (!o.refused()) fail("%s: %s instead of being rejected", what.c_str(), o.str().c_str());
}
static bool close_(double a, double b) { return a == b || fabs(a - b) <= 1e-11 * max(fabs(a), fabs(b)); }
static string F(const char *f, ...) __attribute__((format(printf, 1, 2)));
static string F(const char *f, ...) {
  char b[512];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
// ---- coefficient files ---------------------------------------------------------------------
struct Num {
  string text;  // 15 characters
  double val;
};
static Num num15(int style) {
  Num n;
  long man = style == 1 ? irand(10000000, 99999999) : style == 2 ? 0 : irand(0, 99999999);
  int ex = style == 3 ? (int)irand(-99, 99) : style == 2 ? 0 : (int)irand(-6, 3);
  bool neg = style != 2 && coin();
  n.text = F("%c0.%08ldD%c%02d", neg ? '-' : ' ', man, ex < 0 ? '-' : '+', abs(ex));
  n.val = (neg ? -1 : 1) * (man / 1e8) * pow(10.0, ex);
  return n;
}
struct Coefs {
  vector<vector<double>> v;
  vector<string> lines;           // header and coefficient lines
  vector<int> orb;                // which orbital a line belongs to, -1 header
};
static Coefs coefs(const string &spin, int norb, int n, int per = 5) {
  Coefs c;
  for (int i = 1; i <= norb; ++i) {
    c.lines.push_back(F("%5d %s MO OE=%c0.%08ldD+%02d", i, spin.c_str(), coin() ? '-' : ' ', irand(0, 99999999), (int)irand(0, 3)));
    c.orb.push_back(-1);
    c.v.emplace_back();
    string l;
    for (int j = 1; j <= n; ++j) {
      Num x = num15(irand(0, 9) ? irand(0, 1) : irand(2, 3));
      c.v.back().push_back(x.val);
      l += x.text;
      if (j % per == 0 || j == n) {
        c.lines.push_back(l);
        c.orb.push_back(i);
        l.clear();
      }
    }
  }
  return c;
}
static string text(const vector<string> &v, bool last_nl = true) {
  string s;
  for (size_t i = 0; i < v.size(); ++i) s += v[i] + (i + 1 < v.size() || last_nl ? "\n" : "");
  return s;
}
static void samecoef(Matrix *m, const vector<vector<double>> &v, const string &what) {
  if (!m) fail("%s: no matrix", what.c_str());
  int r = v.size(), c = v[0].size();
  if (m->get_rows() != r || m->get_cols() != c || m->get_shel() != 1)
    fail("%s: matrix is %d x %d x %d, expected %d x %d", what.c_str(), m->get_rows(), m->get_cols(), m->get_shel(), r, c);
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < c; ++j)
      if (!close_(m->get_elem(i + 1, j + 1), v[i][j])) fail("%s: coefficient %d of orbital %d is %.17g instead of %.17g", what.c_str(), j + 1, i + 1, m->get_elem(i + 1, j + 1), v[i][j]);
}
PROP(C37) {
  for (int t = 0; t < (thorough ? 4000 : 500); ++t) {
    int k = 1 + t % 7;  // fields on the line
    if (!begin("line of %d fields, %d", k, t)) continue;
    string l;
    vector<double> want;
    for (int i = 0; i < k; ++i) {
      Num x = num15(t % 4 == 3 ? irand(0, 3) : irand(0, 1));
      l += x.text;
      want.push_back(x.val);
      if (i && x.text[0] == '-') ++nontrivial;
    }
    // an incomplete field at the end gives no value
    int rest = t % 3 == 2 ? (int)irand(1, 14) : 0;
    l += num15(1).text.substr(0, rest);
    string p = tmpfile("c.pun", "title\n    1 Alpha MO OE=-0.10000000D+02\n" + l + (coin() ? "\n" : ""));
    PunReader r(p);
    Matrix *m = nullptr;
    normal(run([&] { r.read(), m = r.getCoefsMatrix("Alpha"); }), "reading " + q(l));
    samecoef(m, {want}, "line " + q(l));
  }
}
PROP(C38) {
  for (int t = 0; t < (thorough ? 3000 : 350); ++t) {
    int mode = t % 6;
    if (!begin("coefficient file %d", t)) continue;
    int n = t < 60 ? 1 + t % 12 : (int)irand(1, 23), na = (int)irand(1, t % 4 ? 14 : 4), nb = mode == 0 || mode == 1 ? 0 : (int)irand(1, 14), n2 = t % 5 == 0 ? (int)irand(1, 12) : n;
    cur = F("file of %d/%d orbitals of %d/%d coefficients, %d", na, nb, n, n2, t);
    bool betaonly = mode == 1 && coin();
    Coefs a = coefs(betaonly ? "Beta" : "Alpha", na, n, irand(0, 4) ? 5 : (int)irand(1, 5)), b = coefs("Beta", nb, n2);
    string head = coin() ? "" : "(5D15.8)\n";
    string tail = irand(0, 2) ? "" : coin() || (nb ? nb : na) == 1 ? "\n" : " end of the orbitals\n";
    if (mode != 5 || na < 2) {
      string all = head + text(a.lines) + text(b.lines, !tail.empty() || coin()) + tail;
      string p = tmpfile("c.pun", all);
      PunReader r(p);
      normal(run([&] { r.read(); }), "reading the file");
      Matrix *ma = nullptr, *mb = nullptr;
      string s1 = betaonly ? "Beta" : "Alpha", s2 = betaonly ? "Alpha" : "Beta";
      Out oa = run([&] { ma = r.getCoefsMatrix(s1); }), ob = run([&] { mb = r.getCoefsMatrix(s2); });
      normal(oa, "coefficients of " + s1);
      samecoef(ma, a.v, s1);
      if (nb) {
        normal(ob, "coefficients of " + s2);
        samecoef(mb, b.v, s2);
      } else if (!ob.threw())
        fail("coefficients of %s, which is not in the file: %s", s2.c_str(), ob.str().c_str());
      Out oc = run([&] { r.getCoefsMatrix("Gamma"); });
      if (!oc.threw()) fail("coefficients of an unknown spin: %s", oc.str().c_str());
      if (n > 5 && nb) ++nontrivial;
    } else {
      // cut off inside an orbital after the first
      vector<size_t> cand;
      for (size_t i = 0; i < a.lines.size(); ++i)
        if (a.orb[i] > 1) cand.push_back(i);
      size_t cut = pick(cand);
      size_t chars = coin() ? 0 : irand(0, (long)a.lines[cut].size() - 1);
      vector<string> keep(a.lines.begin(), a.lines.begin() + cut);
      string all = head + text(keep);
      if (chars) all += a.lines[cut].substr(0, chars);
      else if (a.orb[cut - 1] == -1) {
        // nothing of the orbital but its title line
        if (coin()) all.pop_back();
      }
      string p = tmpfile("c.pun", all);
      PunReader r(p);
      Matrix *m;
      rejected(run([&] { r.read(), m = r.getCoefsMatrix("Alpha"); }), F("file cut in line %zu (orbital %d) after %zu characters", cut + 1, a.orb[cut], chars));
      ++nontrivial;
    }
  }
  if (begin("nothing in the file")) {
    PunReader r(tmpfile("c.pun", ""));
    normal(run([&] { r.read(); }), "reading an empty file");
    for (const char *s : {"Alpha", "Beta", ""}) {
      Out o = run([&] { r.getCoefsMatrix(s); });
      if (!o.threw()) fail("coefficients from an empty file: %s", o.str().c_str());
    }
  }
}
// ---- log files -----------------------------------------------------------------------------
static void append(vector<string> &a, const vector<string> &b) { a.insert(a.end(), b.begin(), b.end()); }
static vector<string> noise() {
  static const vector<string> v{" Entering Gaussian System, Link 0=g09", " SCF Done:  E(RB3LYP) =  -78.5 A.U. after   10 cycles", "", " ******************************************", "  1  2  3 ",
                                " Population analysis using the SCF density.", " Sum of Mulliken charges =   0.00000", " Alpha Orbitals:", " The electronic state is 1-A.", " Center of mass 1 2 3"};
  vector<string> o;
  for (int k = irand(0, 3); k > 0; --k) o.push_back(pick(v));
  return o;
}
static vector<string> overlap(const Ref &S, vector<size_t> *body = nullptr) {
  int n = S.r;
  vector<string> o{" *** Overlap *** "};
  for (int c0 = 1; c0 <= n; c0 += 5) {
    string hd = "           ";
    for (int c = c0; c <= min(n, c0 + 4); ++c) hd += F("%6d        ", c);
    o.push_back(hd);
    for (int r = c0; r <= n; ++r) {
      string l = F("%7d", r);
      for (int c = c0; c <= min(r, c0 + 4); ++c) {
        double v = S.at(r, c);
        int ex = 0;
        double m = fabs(v);
        if (m != 0) {
          ex = (int)floor(log10(m)) + 1;
          m /= pow(10.0, ex);
        }
        l += F(" %c%.6fD%c%02d", v < 0 ? '-' : ' ', m, ex < 0 ? '-' : '+', abs(ex));
      }
      if (body) body->push_back(o.size());
      o.push_back(l);
    }
  }
  return o;
}
static Ref rndS(int n) {
  Ref S(n, n);
  for (int i = 1; i <= n; ++i)
    for (int j = 1; j <= i; ++j) {
      int e = irand(0, 9) ? (int)irand(-5, 0) : (int)irand(-20, 3);
      double v = i == j && coin() ? 1.0 : irand(0, 15) == 0 ? 0.0 : (double)irand(100000, 999999) / 1e6 * pow(10.0, e) * (coin() ? 1 : -1);
      S.at(i, j) = S.at(j, i) = v;
    }
  return S;
}
static void sameS(Matrix *m, const Ref &S) {
  if (!m) fail("no overlap matrix");
  if (m->get_rows() != S.r || m->get_cols() != S.c || m->get_shel() != 1) fail("overlap matrix is %d x %d x %d, expected %d x %d", m->get_rows(), m->get_cols(), m->get_shel(), S.r, S.c);
  for (int i = 1; i <= S.r; ++i)
    for (int j = 1; j <= S.c; ++j)
      if (!close_(m->get_elem(i, j), S.at(i, j))) fail("overlap (%d,%d) is %.17g instead of %.17g", i, j, m->get_elem(i, j), S.at(i, j));
}
struct Energies {
  vector<double> e[2];
  int homo[2] = {0, 0};
  bool has[2] = {false, false};
};
static vector<string> eigen(Energies &E, bool beta, int occ, int virt) {
  vector<string> o;
  E.e[beta].clear();
  E.homo[beta] = occ;
  E.has[beta] = true;
  double x = -(double)irand(100000, 20000000) / 1e5;
  for (int k = 0; k < 2; ++k) {
    int n = k ? virt : occ;
    string l;
    for (int i = 0; i < n; ++i) {
      x += (double)irand(0, 200000) / 1e5;
      if (irand(0, 20) == 0) x = -x / 2;
      double v = round(x * 1e5) / 1e5;
      if (l.empty()) l = string(beta ? "  Beta " : " Alpha ") + (k ? "virt." : " occ.") + " eigenvalues -- ";
      string t = F("%10.5f", v);
      l += t;
      E.e[beta].push_back(atof(t.c_str()));
      if (i % 5 == 4 || i == n - 1) {
        o.push_back(l);
        l.clear();
      }
    }
  }
  return o;
}
static void sameE(LogReader &r, const Energies &E) {
  for (int b = 0; b < 2; ++b) {
    if (!E.has[b]) continue;
    string s = b ? "Beta" : "Alpha";
    vector<double> g;
    int homo = -1;
    normal(run([&] { g = r.getOE(s), homo = r.getHOMOLevel(s); }), "energies of " + s);
    if (g.size() != E.e[b].size()) fail("%zu energies of %s read instead of %zu", g.size(), s.c_str(), E.e[b].size());
    for (size_t i = 0; i < g.size(); ++i)
      if (g[i] != E.e[b][i]) fail("energy %zu of %s is %.17g instead of %.17g", i + 1, s.c_str(), g[i], E.e[b][i]);
    if (homo != E.homo[b]) fail("the HOMO level of %s is %d instead of %d", s.c_str(), homo, E.homo[b]);
  }
}
static const char *DASH = " ---------------------------------------------------------------------";
static vector<string> coords(vector<vector<double>> &xyz, int n, bool std_) {
  vector<string> o{std_ ? "                         Standard orientation:" : "                          Input orientation:", DASH};
  o.push_back(coin() ? " Center     Atomic      Atomic             Coordinates (Angstroms)" : " Center     Atomic     Atomic              Coordinates (Angstroms)");
  o.push_back(" Number     Number       Type             X           Y           Z");
  o.push_back(DASH);
  xyz.assign(3, vector<double>());
  for (int i = 1; i <= n; ++i) {
    double v[3];
    for (int k = 0; k < 3; ++k) {
      v[k] = (double)irand(-99999999, 99999999) / 1e6;
      if (irand(0, 9) == 0) v[k] = 0;
      string t = F("%.6f", v[k]);
      xyz[k].push_back(v[k] = atof(t.c_str()));
    }
    o.push_back(F("%7d %10d %11d    %12.6f%12.6f%12.6f", i, (int)irand(1, 30), 0, v[0], v[1], v[2]));
  }
  o.push_back(DASH);
  return o;
}
static void sameC(LogReader &r, const vector<vector<double>> &xyz) {
  vector<vector<double>> g;
  normal(run([&] { g = r.getCoords(); }), "coordinates");
  if (g.size() != 3) fail("%zu coordinate columns", g.size());
  for (int k = 0; k < 3; ++k) {
    if (g[k].size() != xyz[k].size()) fail("%zu atoms in column %c instead of %zu", g[k].size(), "xyz"[k], xyz[k].size());
    for (size_t i = 0; i < g[k].size(); ++i)
      if (g[k][i] != xyz[k][i]) fail("%c of atom %zu is %.17g instead of %.17g", "xyz"[k], i + 1, g[k][i], xyz[k][i]);
  }
}
static int first = 1, kinds = 9;   // of the labels in use
static void relabel() { first = irand(0, 3) ? 1 : (int)irand(7, 11), kinds = (int)irand(1, 16); }
static vector<string> gross(const vector<int> &counts, bool open, const vector<string> &elem) {
  // shell numbers run on as in heavy atoms; the labels of one atom are all different
  static const vector<string> kind{"S", "PX", "PY", "PZ", "XX", "YY", "ZZ", "XY", "XZ", "YZ", "D 0", "D+1", "D-1", "D+2", "D-2", "F 0"};
  vector<string> orb;
  for (int i = 0; i < 100; ++i) orb.push_back(to_string(first + i / kinds) + kind[i % kinds]);
  vector<string> o{"     Gross orbital populations:"};
  o.push_back(open ? "                          Total     Alpha     Beta      Spin" : "                           1");
  int k = 0;
  for (size_t a = 0; a < counts.size(); ++a)
    for (int i = 0; i < counts[a]; ++i) {
      string l = i == 0 ? F("%4d %-4d%-2s %-5s", ++k, (int)a + 1, elem[a].c_str(), orb[i].c_str()) : F("%4d        %-5s", ++k, orb[i].c_str());
      for (int c = 0; c < (open ? 4 : 1); ++c) l += F("  %9.5f", (double)irand(-10000, 199999) / 1e5);
      o.push_back(l);
    }
  o.push_back("         Condensed to atoms (all electrons):");
  return o;
}
static void sameG(LogReader &r, const vector<int> &counts) {
  vector<int> g;
  normal(run([&] { g = r.getBasisFuncCount(); }), "basis function counts");
  if (g != counts) {
    string s;
    for (int x : g) s += " " + to_string(x);
    s += " instead of";
    for (int x : counts) s += " " + to_string(x);
    fail("basis function counts are%s", s.c_str());
  }
}
static vector<int> rndcounts(int n) {
  vector<int> c(n);
  for (int &x : c) x = irand(0, 3) ? (int)irand(1, 15) : (int)irand(1, 40);
  return c;
}
static vector<string> rndelem(int n) {
  vector<string> e(n);
  for (auto &x : e) x = pick(vector<string>{"C", "H", "N", "S", "Cl", "Si", "O"});
  return e;
}
// the first lines of a file, cut so that the section is incomplete
static string cutat(const vector<string> &before, const vector<string> &sec, size_t lines, bool nl) {
  string s = text(before);
  for (size_t i = 0; i < lines; ++i) s += sec[i] + (i + 1 < lines || nl ? "\n" : "");
  return s;
}
PROP(C39) {
  for (int n = 1; n <= (thorough ? 40 : 23); ++n)
    for (int k = 0; k < (thorough ? 12 : 4); ++k) {
      if (!begin("overlap of %d basis functions, %d", n, k)) continue;
      Ref S = rndS(n);
      vector<string> l = noise();
      append(l, overlap(S));
      l.push_back(" *** Kinetic Energy *** ");
      append(l, noise());
      LogReader r(tmpfile("s.log", text(l)));
      Matrix *m = nullptr;
      normal(run([&] { r.read(), m = r.getOverlapMatrix(); }), "reading");
      sameS(m, S);
      if (n > 5) ++nontrivial;
    }
  for (int t = 0; t < (thorough ? 800 : 120); ++t) {
    if (!begin("overlap cut off, %d", t)) continue;
    int n = irand(1, 17);
    Ref S = rndS(n);
    vector<size_t> body;
    vector<string> l = noise(), s = overlap(S, &body);
    size_t keep = pick(body);
    string c = cutat(l, s, keep, coin());
    if (c.empty() || keep <= 1) continue;
    LogReader r(tmpfile("s.log", c));
    Matrix *m;
    rejected(run([&] { r.read(), m = r.getOverlapMatrix(); }), F("section of %d basis functions cut before line %zu", n, keep));
  }
}
PROP(C40) {
  for (int t = 0; t < (thorough ? 3000 : 400); ++t) {
    if (!begin("listings %d", t)) continue;
    Energies E;
    vector<string> l;
    if (irand(0, 3)) append(l, noise());
    int listings = 1 + t % 3;
    bool beta = coin();
    for (int k = 0; k < listings; ++k) {
      append(l, eigen(E, false, irand(1, 12), irand(0, 12)));
      if (beta) {
        append(l, eigen(E, true, irand(1, 12), irand(0, 12)));
        ++nontrivial;
      }
      if (k + 1 < listings || coin()) {
        l.push_back("          Condensed to atoms (all electrons):");
        append(l, noise());
      }
    }
    LogReader r(tmpfile("e.log", text(l, coin())));
    normal(run([&] { r.read(); }), "reading");
    sameE(r, E);
    if (!beta) {
      Out o = run([&] { r.getOE("Beta"); });
      if (!o.threw()) fail("energies of a spin without listing: %s", o.str().c_str());
    }
  }
}
PROP(C41) {
  for (int t = 0; t < (thorough ? 3000 : 300); ++t) {
    if (!begin("coordinate tables %d", t)) continue;
    vector<vector<double>> xyz;
    vector<string> l;
    if (irand(0, 3)) append(l, noise());
    for (int k = t % 4; k >= 0; --k) {
      append(l, coords(xyz, irand(1, 14), k & 1));
      append(l, noise());
    }
    if (t % 4) ++nontrivial;
    LogReader r(tmpfile("x.log", text(l, coin())));
    normal(run([&] { r.read(); }), "reading");
    sameC(r, xyz);
  }
  for (int t = 0; t < (thorough ? 800 : 150); ++t) {
    if (!begin("coordinate table cut off, %d", t)) continue;
    vector<vector<double>> xyz;
    vector<string> l = noise(), s;
    if (coin()) append(l, coords(xyz, irand(1, 5), false));
    s = coords(xyz, irand(1, 6), true);
    size_t keep = irand(3, (long)s.size() - 1);
    string c = cutat(l, s, keep, coin());
    if (coin()) c += (c.back() == '\n' ? "" : "\n") + s[keep].substr(0, irand(0, 30));
    LogReader r(tmpfile("x.log", c));
    rejected(run([&] { r.read(), r.getCoords(); }), F("table cut after line %zu of %zu", keep, s.size()));
  }
}
PROP(C42) {
  for (int t = 0; t < (thorough ? 3000 : 300); ++t) {
    if (!begin("populations %d", t)) continue;
    relabel();
    int n = irand(1, t % 3 ? 4 : 30);
    vector<int> c = rndcounts(n);
    vector<string> e = rndelem(n);
    vector<string> l;
    if (irand(0, 3)) append(l, noise());
    bool open = coin();
    append(l, gross(c, open, e));
    if (irand(0, 3) == 0) {
      append(l, noise());
      append(l, gross(c, open, e));
    }
    append(l, noise());
    LogReader r(tmpfile("g.log", text(l, coin())));
    normal(run([&] { r.read(); }), "reading");
    sameG(r, c);
    if (n > 1) ++nontrivial;
  }
  for (int t = 0; t < (thorough ? 800 : 150); ++t) {
    if (!begin("populations cut off, %d", t)) continue;
    int n = irand(1, 5);
    vector<string> l = noise(), s = gross(rndcounts(n), coin(), rndelem(n));
    size_t keep = irand(1, (long)s.size() - 1);
    string c = cutat(l, s, keep, coin());
    LogReader r(tmpfile("g.log", c));
    rejected(run([&] { r.read(), r.getBasisFuncCount(); }), F("section cut after line %zu of %zu", keep, s.size()));
  }
  // whole log files: every section at once
  for (int t = 0; t < (thorough ? 600 : 80); ++t) {
    if (!begin("whole log file %d", t)) continue;
    int n = irand(1, 5);
    vector<vector<double>> xyz;
    vector<int> c = rndcounts(n);
    int nb = 0;
    for (int x : c) nb += x;
    Ref S = rndS(min(nb, 25));
    Energies E;
    vector<string> l = noise();
    append(l, coords(xyz, n, false));
    append(l, overlap(S));
    l.push_back(" *** Kinetic Energy *** ");
    append(l, noise());
    if (coin()) append(l, coords(xyz, n, true));
    append(l, noise());
    bool b = coin();
    append(l, eigen(E, false, irand(1, 9), irand(1, 9)));
    if (b) append(l, eigen(E, true, irand(1, 9), irand(1, 9)));
    append(l, gross(c, b, rndelem(n)));
    append(l, noise());
    LogReader r(tmpfile("w.log", text(l)));
    normal(run([&] { r.read(); }), "reading");
    sameC(r, xyz);
    sameS(r.getOverlapMatrix(), S);
    sameE(r, E);
    sameG(r, c);
  }
}
PROP(C43) {
  vector<string> names{"a.log", "a.pun", ".log", ".pun", "", "a", "log", "a.log.pun", "a.pun.log", "dir.pun/a.log", "dir.log/a", "dir.log/a.pun", "/x/y.z/a.log", "a.LOG", "a.logs", "a.lo", "a.log/", "a..log", "..pun",
                       " a.log", "a.log ", "\ta.pun \n", "a .pun", "a. pun", "a.log\t\t", "  ", "./a.log", "../b.pun", "a.punn", "a.orb", "a.7", "a.log.", "a/.log", "a.log x"};
  for (const string &n : names)
    for (int kind = 0; kind < 2; ++kind) {
      if (!begin("%s reader for %s", kind ? "coefficient" : "log", q(n).c_str())) continue;
      string l = n;
      size_t p = l.rfind('/');
      if (p != string::npos) l = l.substr(p + 1);
      while (!l.empty() && isspace((unsigned char)l.back())) l.pop_back();
      while (!l.empty() && isspace((unsigned char)l[0])) l.erase(0, 1);
      p = l.rfind('.');
      string ext = p == string::npos ? "" : l.substr(p);
      bool ok = ext == (kind ? ".pun" : ".log");
      unique_ptr<PunReader> rp;
      unique_ptr<LogReader> rl;
      Out o = run([&] {
        if (kind) rp.reset(new PunReader(n));
        else rl.reset(new LogReader(n));
      });
      FileReader *r = kind ? (FileReader *)rp.get() : rl.get();
      if (ok) {
        normal(o, "construction");
        if (r->getExt() != ext) fail("extension %s", q(r->getExt()).c_str());
        Out o2 = run([&] { r->read(); });
        if (!o2.threw()) fail("reading a file that does not exist: %s", o2.str().c_str());
        ++nontrivial;
      } else if (!o.threw())
        fail("construction: %s instead of an exception", o.str().c_str());
    }
  for (const char *n : {"there.log", "there.pun", "two words.log", "x.y.pun"}) {
    if (!begin("existing file %s", n)) continue;
    string p = tmpfile(n, "nothing\n");
    normal(run([&] {
             if (string(n).find(".pun") != string::npos) PunReader(p).read();
             else LogReader(p).read();
           }),
           "reading an existing file");
  }
}
