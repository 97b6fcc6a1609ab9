#include "h.hpp"
#include "libcatnip/io/file_readers/logreader.hpp"
#include "libcatnip/string_support.hpp"
#include <cmath>
using namespace catnip;
using namespace h;
using namespace std;
namespace catnip {
void ltrim_(string &) __attribute__((weak));
void rtrim_(string &) __attribute__((weak));
}  // namespace catnip
vector<string> splitStEnergies(const string &) __attribute__((weak));

// all strings over an alphabet up to a length, then random longer ones
static void strings(const string &alpha, int maxlen, int nrandom, const function<void(const string &)> &f) {
  for (int n = 0; n <= maxlen; ++n) {
    vector<size_t> ix(n, 0);
    for (;;) {
      string s;
      for (size_t i : ix) s += alpha[i];
      f(s);
      int k = 0;
      while (k < n && ix[k] + 1 == alpha.size()) ix[k++] = 0;
      if (k == n) break;
      ++ix[k];
    }
  }
  mt19937_64 g(seed * 77 + 5);
  for (int t = 0; t < nrandom * (thorough ? 8 : 1); ++t) {
    string s;
    int n = g() % 60;
    for (int i = 0; i < n; ++i) s += alpha[g() % alpha.size()];
    if (n && g() % 4 == 0)   // bytes of every kind
      for (int i = g() % 4; i >= 0; --i) s[g() % n] = (char)(g() % 3 ? g() % 256 : 0);
    f(s);
  }
}
static void eq(const string &what, const string &got, const string &want) {
  if (got != want) fail("%s = %s, expected %s", what.c_str(), q(got).c_str(), q(want).c_str());
}
static void normal(const Out &o, const string &what) {
  if (!o.ret()) fail("%s: %s", what.c_str(), o.str().c_str());
}
static bool sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; }

PROP(C21) {
  auto one = [](const string &s) {
    if (!begin("trim %s", q(s).c_str())) return;
    size_t a = 0, b = s.size();
    while (a < s.size() && sp(s[a])) ++a;
    while (b > 0 && sp(s[b - 1])) --b;
    string l = s.substr(a), r = s.substr(0, b), t = a < b ? s.substr(a, b - a) : "";
    if (a > 0 && b < s.size()) ++nontrivial;
    string v, w = s;
    normal(run([&] { v = ltrimmed(s); }), "ltrimmed");
    eq("ltrimmed", v, l);
    normal(run([&] { v = rtrimmed(s); }), "rtrimmed");
    eq("rtrimmed", v, r);
    normal(run([&] { v = trimmed(s); }), "trimmed");
    eq("trimmed", v, t);
    normal(run([&] { trim(w); }), "trim");
    eq("trim (in place)", w, t);
    if (ltrim_) {
      w = s;
      normal(run([&] { ltrim_(w); }), "ltrim_");
      eq("ltrim_", w, l);
    }
    if (rtrim_) {
      w = s;
      normal(run([&] { rtrim_(w); }), "rtrim_");
      eq("rtrim_", w, r);
    }
  };
  strings(" \ta", 5, 100, one);
  strings(string(" \t\n\v\f\rab.\0-_", 12), 2, 300, one);
  for (int c = 1; c < 128; ++c) {
    string k(1, (char)c);
    one(k);
    one(k + k);
    one(" " + k + " ");
    one(k + "x" + k);
    one("x" + k + "y");
  }
}

PROP(C22) {
  auto one = [](const string &s) {
    if (!begin("path %s", q(s).c_str())) return;
    size_t p = s.rfind('/');
    string dir = p == string::npos ? "" : s.substr(0, p + 1), name = p == string::npos ? s : s.substr(p + 1);
    if (p != string::npos) ++nontrivial;
    string v;
    normal(run([&] { v = lastStringInPath(s); }), "lastStringInPath");
    eq("file name", v, name);
    normal(run([&] { v = getPath(s); }), "getPath");
    eq("directory part", v, dir);
  };
  strings("/a.", thorough ? 8 : 6, 100, one);
  strings("/ab .\\-~", 3, 300, one);
  one("../../x/y.log");
  one(string(3000, '/'));
  one(string(1000, 'a') + "/" + string(1000, 'b'));
}

PROP(C23) {
  auto one = [](const string &s) {
    int L = s.size();
    vector<int> ns;
    for (int n = 0; n <= L + 3; ++n) ns.push_back(n);
    ns.push_back(L + 1000);
    ns.push_back(0x7fffffff);
    for (int n : ns) {
      if (!begin("cut %s at %d", q(s).c_str(), n)) continue;
      string f, b, e, c;
      Out o1 = run([&] { f = firstN(s, n); }), o2 = run([&] { b = lastN(s, n); }), o3 = run([&] { e = cut_end(s, n); }),
          o4 = run([&] { c = cut_beg(s, n); });
      if (n <= L) {
        if (n > 0 && n < L) ++nontrivial;
        normal(o1, "firstN");
        eq("firstN", f, string(s.begin(), s.begin() + n));
        normal(o2, "lastN");
        eq("lastN", b, string(s.begin() + (L - n), s.end()));
        normal(o3, "cut_end");
        eq("cut_end", e, string(s.begin(), s.begin() + (L - n)));
        normal(o4, "cut_beg");
        eq("cut_beg", c, string(s.begin() + n, s.end()));
      } else {
        // nothing from outside the string: an error, or a piece of the string
        const string *v[] = {&f, &b, &e, &c};
        const Out *o[] = {&o1, &o2, &o3, &o4};
        const char *nm[] = {"firstN", "lastN", "cut_end", "cut_beg"};
        for (int i = 0; i < 4; ++i)
          if (o[i]->ret() && s.find(*v[i]) == string::npos) fail("%s gave %s", nm[i], q(*v[i]).c_str());
      }
    }
  };
  strings("ab", 5, 0, one);
  strings("abc. /", 2, 30, one);
  for (int n : {15, 16, 17, 31, 64, 500}) {
    string s;
    for (int i = 0; i < n; ++i) s += (char)('a' + i % 26);
    one(s);
  }
}

PROP(C24) {
  auto two = [](const string &s, const string &occ) {
    if (occ.empty()) return;
    if (!begin("occurrence of %s in %s", q(occ).c_str(), q(s).c_str())) return;
    size_t first = string::npos, last = string::npos;
    for (size_t i = 0; i + occ.size() <= s.size(); ++i) {
      bool m = true;
      for (size_t j = 0; j < occ.size(); ++j) m = m && s[i + j] == occ[j];
      if (m) {
        if (first == string::npos) first = i;
        last = i;
      }
    }
    bool has = first != string::npos;
    if (has && first != last) ++nontrivial;
    string v;
    normal(run([&] { v = grabStrAfterFirstOccurance(s, occ); }), "after first");
    eq("after first", v, has ? s.substr(first + occ.size()) : "");
    normal(run([&] { v = grabStrAfterLastOccurance(s, occ); }), "after last");
    eq("after last", v, has ? s.substr(last + occ.size()) : "");
    normal(run([&] { v = grabStrAfterLastOccuranceInclusive(s, occ); }), "after last, inclusive");
    eq("after last, inclusive", v, has ? s.substr(last) : "");
    normal(run([&] { v = grabStrBeforeFirstOccurance(s, occ); }), "before first");
    eq("before first", v, has ? s.substr(0, first) : s);
    normal(run([&] { v = grabStrBeforeLastOccurance(s, occ); }), "before last");
    eq("before last", v, has ? s.substr(0, last) : s);
    normal(run([&] { v = grabStrBeforeLastOccuranceInclusive(s, occ); }), "before last, inclusive");
    eq("before last, inclusive", v, has ? s.substr(0, last + occ.size()) : s);
    bool f = !has;
    normal(run([&] { f = foundSubStrInStr(s, occ); }), "found");
    if (f != has) fail("found reported as %d", (int)f);
  };
  for (const string &occ : {"a", "b", "aa", "ab", "ba", "aba", "abab", "aab"})
    strings("ab", thorough ? 9 : 7, 10, [&](const string &s) { two(s, occ); });
  strings(".ab/", 4, 100, [&](const string &s) {
    two(s, ".");
    two(s, "/");
    two(s, s);
    two(s, "." + s);
    if (s.size() > 2) two(s, s.substr(1, 2));
  });
  for (int t = 0; t < (thorough ? 4000 : 400); ++t) {
    mt19937_64 g(seed * 991 + t);
    string a, b;
    for (int i = g() % 40; i > 0; --i) a += "abc \n\0"[g() % 6];
    for (int i = 1 + g() % 4; i > 0; --i) b += "abc \n\0"[g() % 6];
    two(a, b);
  }
}

PROP(C25) {
  // Gaussian prints up to five energies per line, ten columns with five decimals each
  auto line = [](bool beta, bool occ, const vector<string> &e) {
    string s = string(beta ? "  Beta " : " Alpha ") + (occ ? " occ." : "virt.") + " eigenvalues -- ";
    for (const string &x : e) s += x;
    return s;
  };
  auto one = [&](const vector<double> &v, int width, bool beta, bool occ) {
    vector<string> cols, want{beta ? "Beta" : "Alpha", occ ? "occ." : "virt.", "eigenvalues", "--"};
    for (double x : v) {
      char b[64];
      snprintf(b, sizeof b, "%*.5f", width, x);
      if (!cols.empty() && x >= 0 && b[0] != ' ') snprintf(b, sizeof b, " %.5f", x);
      cols.push_back(b);
      string t = b;
      while (t[0] == ' ') t.erase(0, 1);
      want.push_back(t);
    }
    string l = line(beta, occ, cols);
    if (!begin("energies %s", q(l).c_str())) return;
    bool joined = false;
    for (size_t i = 1; i < cols.size(); ++i) joined = joined || cols[i][0] == '-';
    if (joined) ++nontrivial;
    if (splitStEnergies) {
      vector<string> got;
      normal(run([&] { got = splitStEnergies(l); }), "splitting the energies");
      if (got != want) {
        string g;
        for (auto &x : got) g += " " + q(x);
        fail("split into%s", g.c_str());
      }
    }
    // through the reader
    if (!beta && occ) {
      string p = tmpfile("e.log", " some text\n" + l + "\n end\n");
      vector<double> e;
      normal(run([&] {
               LogReader r(p);
               r.read();
               e = r.getOE("Alpha");
             }),
             "reading the energies");
      if (e.size() != v.size()) fail("%zu energies read instead of %zu", e.size(), v.size());
      for (size_t i = 0; i < v.size(); ++i)
        if (e[i] != atof(want[4 + i].c_str())) fail("energy %zu read as %.17g instead of %s", i + 1, e[i], want[4 + i].c_str());
    }
  };
  vector<double> val{-101.56324, -100.00001, -10.5, -0.12345, 0.0, 0.54321, 12.34567, -1000.12345, 123.45678};
  for (int n = 1; n <= 2; ++n)
    for (size_t a = 0; a < val.size(); ++a)
      for (size_t b = 0; b < (n == 2 ? val.size() : 1); ++b) {
        vector<double> v{val[a]};
        if (n == 2) v.push_back(val[b]);
        one(v, 10, a % 2, b % 2 == 0);
        one(v, 1, false, true);
      }
  mt19937_64 g(seed * 3 + 1);
  for (int t = 0; t < (thorough ? 8000 : 500); ++t) {
    vector<double> v(1 + g() % 9);  // Gaussian prints up to five
    int mode = g() % 4;
    for (double &x : v) {
      x = ((double)(g() % 20000000) - (mode == 0 ? 20000000.0 : mode == 1 ? 10000000.0 : 18000000.0)) / 100000;
      if (mode == 2) x = -101 - (double)(g() % 900);
      if (mode == 3) x = val[g() % val.size()];
    }
    one(v, g() % 3 ? 10 : 1, g() & 1, g() & 1);
  }
}
