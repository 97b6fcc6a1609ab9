#include <functional>
#include "h.hpp"
#include "libcatnip/io/argumentparser.hpp"
#include "libcatnip/io/arguments/properties/propertydouble.hpp"
#include "libcatnip/io/arguments/properties/propertyfileexist.hpp"
#include "libcatnip/io/arguments/properties/propertyfileext.hpp"
#include "libcatnip/io/arguments/properties/propertyint.hpp"
#include "libcatnip/io/arguments/properties/propertysisterfile.hpp"
#include "libcatnip/io/arguments/properties/propertystring.hpp"
#include "libcatnip/io/arguments/properties/propertystringchoice.hpp"
#include "libcatnip/io/arguments/properties/propertyswitch.hpp"
#include "libcatnip/io/io.hpp"
#include "libcatnip/parameters.hpp"
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <set>
using namespace catnip;
using namespace h;
using namespace std;

static void eq(const string &what, const string &got, const string &want) {
  if (got != want) fail("%s = %s, expected %s", what.c_str(), q(got).c_str(), q(want).c_str());
}
static void normal(const Out &o, const string &what) {
  if (!o.ret()) fail("%s: %s", what.c_str(), o.str().c_str());
}
static void throws(const Out &o, const string &what) {
  if (!o.threw()) fail("%s: %s instead of an exception", what.c_str(), o.str().c_str());
}
static void verdict(const Out &o, bool ok, const string &what) { ok ? normal(o, what + " (must be accepted)") : throws(o, what + " (must be rejected)"); }
static string show(const vector<string> &v) {
  string s;
  for (auto &x : v) s += (s.empty() ? "" : " ") + q(x);
  return "[" + s + "]";
}
static vector<string> vec(const set<string> &s) { return vector<string>(s.begin(), s.end()); }
static string join(const vector<string> &v) {
  string s;
  for (auto &x : v) s += (s.empty() ? "" : " ") + x;
  return s;
}
static bool ends(const string &s, const string &e) { return s.size() >= e.size() && s.substr(s.size() - e.size()) == e; }

// ---------------------------------------------------------------- C26
struct ParMod {
  string s[12];
  int n[3] = {0, 0, 0};
  bool b[2] = {false, false};
};
static ParMod snap(const Parameters &p) {
  ParMod m;
  m.s[0] = p.getLog1(), m.s[1] = p.getLog2(), m.s[2] = p.getLogP(), m.s[3] = p.getPun1(), m.s[4] = p.getPun2(), m.s[5] = p.getPunP();
  m.s[6] = p.getSpin1(), m.s[7] = p.getSpin2(), m.s[8] = p.getSpinP(), m.s[9] = p.getOrbType1(), m.s[10] = p.getOrbType2(),
  m.s[11] = p.getOrbTypeP();
  m.n[0] = p.getOrbNum1(), m.n[1] = p.getOrbNum2(), m.n[2] = p.getOrbNumP();
  m.b[0] = p.getCounterPoise(), m.b[1] = p.getCitation();
  return m;
}
static const char *PN[] = {"Log1", "Log2", "LogP", "Pun1", "Pun2", "PunP", "Spin1", "Spin2", "SpinP", "OrbType1", "OrbType2", "OrbTypeP"};
static void parcheck(const Parameters &p, const ParMod &m, const string &after) {
  ParMod g = snap(p);
  for (int i = 0; i < 12; ++i)
    if (g.s[i] != m.s[i]) fail("after %s get%s() = %s, expected %s", after.c_str(), PN[i], q(g.s[i]).c_str(), q(m.s[i]).c_str());
  for (int i = 0; i < 3; ++i)
    if (g.n[i] != m.n[i]) fail("after %s orbital number %d = %d, expected %d", after.c_str(), i, g.n[i], m.n[i]);
  for (int i = 0; i < 2; ++i)
    if (g.b[i] != m.b[i]) fail("after %s switch %d = %d, expected %d", after.c_str(), i, (int)g.b[i], (int)m.b[i]);
}
typedef void (Parameters::*SetS)(const string &);
static SetS setters[] = {&Parameters::setLog1, &Parameters::setLog2, &Parameters::setLogP, &Parameters::setPun1, &Parameters::setPun2,
                         &Parameters::setPunP, &Parameters::setSpin1, &Parameters::setSpin2, &Parameters::setSpinP, &Parameters::setOrbType1,
                         &Parameters::setOrbType2, &Parameters::setOrbTypeP};
PROP(C26) {
  if (begin("fresh parameters")) {
    Parameters p;
    parcheck(p, ParMod(), "construction");
  }
  vector<string> names{"", "a", "log", ".log", ".pun", "x.log", "x.pun", "x.log.pun", "x.pun.log", "x.logs", "x.LOG", "xlog", "x.lo", "/a/b.log/c", "/a/b.pun/c.log",
                       "dir.log/x", "x.log ", "..log", "..pun", "x.pu", "x.punn", "x.orb", "x.7", "a b.log", "a b.pun", ".logx", "og", "n"};
  for (int i = 0; i < 6; ++i)
    for (const string &n : names)
      for (int first = 0; first < 2; ++first) {
        if (!begin("set%s(%s)%s", PN[i], q(n).c_str(), first ? " over an earlier value" : "")) continue;
        Parameters p;
        ParMod m;
        for (int k = 0; k < 12; ++k)
          if (first) {
            m.s[k] = k < 3 ? "old" + to_string(k) + ".log" : k < 6 ? "old" + to_string(k) + ".pun" : "v" + to_string(k);
            (p.*setters[k])(m.s[k]);
          }
        bool ok = ends(n, i < 3 ? ".log" : ".pun");
        Out o = run([&] { (p.*setters[i])(n); });
        verdict(o, ok, "setting the file");
        if (ok) m.s[i] = n;
        else ++nontrivial;
        parcheck(p, m, "setting the file");
      }
  for (int t = 0; t < (thorough ? 2000 : 200); ++t) {
    if (!begin("random settings %d", t)) continue;
    Parameters p;
    ParMod m;
    for (int k = 0; k < 40; ++k) {
      int w = irand(0, 16);
      if (w < 12) {
        string v;
        for (int i = irand(0, 12); i > 0; --i) v += pick(vector<string>{"a", "b", ".", "/", " ", "log", "pun"});
        if (coin()) v += pick(vector<string>{".log", ".pun"});
        bool ok = w >= 6 || ends(v, w < 3 ? ".log" : ".pun");
        verdict(run([&] { (p.*setters[w])(v); }), ok, string("set") + PN[w] + "(" + q(v) + ")");
        if (ok) m.s[w] = v;
        else ++nontrivial;
      } else if (w < 15) {
        int v = irand(-5, 5);
        w == 12 ? p.setOrbNum1(v) : w == 13 ? p.setOrbNum2(v) : p.setOrbNumP(v);
        m.n[w - 12] = v;
      } else {
        bool v = coin();
        w == 15 ? p.setCounterPoise(v) : p.setCitation(v);
        m.b[w - 15] = v;
      }
      parcheck(p, m, string("step ") + to_string(k));
    }
  }
}

// ---------------------------------------------------------------- C27
PROP(C27) {
  int lo = numeric_limits<int>::min(), hi = numeric_limits<int>::max();
  vector<int> iv{lo, lo + 1, -7, -1, 0, 1, 2, 3, 100, hi - 1, hi};
  double dl = numeric_limits<double>::lowest(), dh = numeric_limits<double>::max(), tiny = numeric_limits<double>::denorm_min();
  vector<double> dv{dl, -1e10, -1.5, -1, -tiny, 0, tiny, 1e-9, 0.999999999, 1, 1.5, 3, 1e10, dh};
  for (int set1 = 0; set1 < 4; ++set1)
    for (int a : iv)
      for (int b : iv) {
        if ((!(set1 & 1) && a != iv[0]) || (!(set1 & 2) && b != iv[0])) continue;
        int mn = set1 & 1 ? a : lo, mx = set1 & 2 ? b : hi;
        if (!begin("integers within %d .. %d", mn, mx)) continue;
        PropertyInt p;
        ArgumentInt g;
        normal(run([&] {
                 if (set1 & 1) p.setPropOption("MIN", a), g.setArgPropertyOpt("PROPERTY_INT", "MIN", a);
                 if (set1 & 2) p.setPropOption("MAX", b), g.setArgPropertyOpt("PROPERTY_INT", "MAX", b);
               }),
               "setting limits");
        for (int v : iv) {
          bool ok = mn <= v && v <= mx;
          if (!ok) ++nontrivial;
          verdict(run([&] { p.propValid(v); }), ok, "integer " + to_string(v));
          verdict(run([&] { g.argValid(v); }), ok, "integer argument " + to_string(v));
        }
      }
  for (int set1 = 0; set1 < 4; ++set1)
    for (double a : dv)
      for (double b : dv) {
        if ((!(set1 & 1) && a != dv[0]) || (!(set1 & 2) && b != dv[0])) continue;
        double mn = set1 & 1 ? a : dl, mx = set1 & 2 ? b : dh;
        if (!begin("numbers within %.17g .. %.17g", mn, mx)) continue;
        PropertyDouble p;
        ArgumentDouble g;
        normal(run([&] {
                 if (set1 & 1) p.setPropOption("MIN", a), g.setArgPropertyOpt("PROPERTY_DOUBLE", "MIN", a);
                 if (set1 & 2) p.setPropOption("MAX", b), g.setArgPropertyOpt("PROPERTY_DOUBLE", "MAX", b);
               }),
               "setting limits");
        for (double v : dv) {
          bool ok = mn <= v && v <= mx;
          char t[64];
          snprintf(t, sizeof t, "%.17g", v);
          verdict(run([&] { p.propValid(v); }), ok, string("number ") + t);
          verdict(run([&] { g.argValid(v); }), ok, string("number argument ") + t);
        }
      }
  vector<size_t> sv{0, 1, 2, 3, 5, 40, (size_t)1 << 32, (size_t)-1};
  for (int set1 = 0; set1 < 4; ++set1)
    for (size_t a : sv)
      for (size_t b : sv) {
        if ((!(set1 & 1) && a != sv[0]) || (!(set1 & 2) && b != sv[0])) continue;
        size_t mn = set1 & 1 ? a : 0, mx = set1 & 2 ? b : (size_t)-1;
        if (!begin("strings of %zu .. %zu characters", mn, mx)) continue;
        PropertyString p;
        normal(run([&] {
                 if (set1 & 1) p.setPropOption("MIN_LENGTH", a);
                 if (set1 & 2) p.setPropOption("MAX_LENGTH", b);
               }),
               "setting limits");
        for (size_t n : {0, 1, 2, 3, 4, 5, 6, 39, 40, 41, 300}) {
          string s(n, 'x');
          verdict(run([&] { p.propValid(s); }), mn <= n && n <= mx, "string of length " + to_string(n));
          ArgumentString g;
          verdict(run([&] { g.argValid(s); }), true, "fresh string argument of length " + to_string(n));
        }
      }
  mt19937_64 g(seed);
  for (int t = 0; t < (thorough ? 5000 : 300); ++t) {
    int a = g() % 21 - 10, b = g() % 21 - 10, v = g() % 25 - 12;
    if (!begin("integer %d within %d .. %d (changed limits)", v, a, b)) continue;
    PropertyInt p;
    p.setPropOption("MIN", b);
    p.setPropOption("MAX", a);
    p.setPropOption("MIN", a);
    p.setPropOption("MAX", b);
    verdict(run([&] { p.propValid(v); }), a <= v && v <= b, "integer");
  }
}

// ---------------------------------------------------------------- C28
PROP(C28) {
  set<string> on{"1", "ON", "TRUE"}, off{"0", "OFF", "FALSE"};
  vector<string> cand{"", "0", "1", "ON", "OFF", "TRUE", "FALSE", "on", "off", "On", "true", "false", "True", "2", "-1", "00", "01", "10", "11", "ONN", "OFFON", "O", "OF",
                      "T", "F", " ON", "ON ", "YES", "NO", "TRUEFALSE", "1.0", "ON\n", string("ON\0", 3), string("\0", 1)};
  for (const string &s : cand) {
    if (!begin("switch %s", q(s).c_str())) continue;
    bool ok = on.count(s) || off.count(s);
    if (!ok) ++nontrivial;
    PropertySwitch p;
    ArgumentSwitch a;
    bool pos = false;
    verdict(run([&] { p.propValid(s); }), ok, "switch property");
    verdict(run([&] { a.argValid(s); }), ok, "switch argument");
    Out o = run([&] { pos = a.positive(s); });
    verdict(o, ok, "meaning of the switch");
    if (ok && pos != (on.count(s) > 0)) fail("the switch value %s means %d", q(s).c_str(), (int)pos);
  }
  for (int v : {-2147483647 - 1, -2, -1, 0, 1, 2, 3, 10, 256, 2147483647}) {
    if (!begin("switch %d", v)) continue;
    PropertySwitch p;
    ArgumentSwitch a;
    verdict(run([&] { p.propValid(v); }), v == 0 || v == 1, "switch property");
    if (v == 0 || v == 1)
      if (a.positive(v) != (v == 1)) fail("the switch value %d means %d", v, (int)a.positive(v));
  }
  vector<string> words{"", "a", "b", "ab", "HOMO", "LUMO", "Alpha", "Beta", "true", "false", "NOT_DEFINED", "A", "alpha", "HOM", "HOMOO"};
  for (int t = 0; t < (thorough ? 3000 : 400); ++t) {
    if (!begin("choices %d", t)) continue;
    PropertyStringChoice p;
    ArgumentString a;
    set<string> ch{"NOT_DEFINED"};
    bool enf = false;
    for (int k = irand(0, 4); k > 0; --k) {
      if (coin()) {
        ch.clear();
        for (int n = irand(0, 4); n > 0; --n) ch.insert(pick(words));
        normal(run([&] { p.setPropOption("STRING_CHOICES", ch), a.setArgPropertyOpt("PROPERTY_STRING_CHOICE", "STRING_CHOICES", ch); }), "setting the choices");
      } else {
        enf = coin();
        string v = enf ? "true" : "false";
        normal(run([&] {
                 if (coin()) p.setPropOption("STRING_CHOICE_ENFORCED", v);
                 else p.setPropOption("STRING_CHOICE_ENFORCED", set<string>{v});
                 a.setArgPropertyOpt("PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", set<string>{v});
               }),
               "setting enforcement");
      }
    }
    if (enf) ++nontrivial;
    for (const string &w : words) {
      bool ok = !enf || ch.count(w);
      string d = q(w) + " among " + show(vec(ch)) + (enf ? " enforced" : "");
      verdict(run([&] { p.propValid(w); }), ok, "string " + d);
      verdict(run([&] { a.argValid(w); }), ok, "string argument " + d);
    }
  }
  // a single choice given as a string replaces the earlier ones
  if (begin("single choice")) {
    PropertyStringChoice p;
    p.setPropOption("STRING_CHOICE_ENFORCED", string("true"));
    p.setPropOption("STRING_CHOICES", string("x"));
    p.setPropOption("STRING_CHOICES", string("y"));
    throws(run([&] { p.propValid("x"); }), "x");
    normal(run([&] { p.propValid("y"); }), "y");
  }
}

// ---------------------------------------------------------------- C29
static string lastext(const string &path) {
  string n = path;
  size_t p = n.rfind('/');
  if (p != string::npos) n = n.substr(p + 1);
  p = n.rfind('.');
  return p == string::npos ? "" : n.substr(p);
}
static bool okext(const string &e) { return e.empty() || e[0] == '*' || e.rfind('.') == 0; }
PROP(C29) {
  vector<string> exts{"", "*", ".log", ".pun", ".7", ".", "*.x", ".lo", ".logs", ".a b", ".LOG", ".html", ".longer_ext1", ".c++", ".-"};
  vector<string> bad{"log", "a.log", "..", "..log", ".tar.gz", " .log", "x", "/.log", ".log.", " "};
  vector<string> files{"", "a", "a.log", "a.pun", ".log", "a.", "dir.log/a", "dir/a.log", "/x.y/b.7", "a.log.pun", "a.pun.log", "a.LOG", "a.logs", "a..log", "./a", "../a", "../b.log", "a.log/",
                            "*", "a.*", "*.log", "a.a b", "dir.pun/x.log", ".", "..", "a.lo", "a.7"};
  auto probe = [&](const function<void(const string &)> &valid, const set<string> &s) {
    bool wild = false;
    for (auto &e : s) wild = wild || (!e.empty() && e[0] == '*');
    for (const string &f : files) {
      bool ok = wild || s.count(lastext(f));
      verdict(run([&] { valid(f); }), ok, "file " + q(f) + " with extensions " + show(vec(s)));
    }
    // names that nearly have an allowed extension
    vector<string> near(s.begin(), s.end());
    for (string e : near) {
      for (int k = 0; k < 8; ++k) {
        string x = e;
        switch (irand(0, 6)) {
          case 0: x += pick(vector<string>{"x", "5", ".", " ", "g", "*"}); break;
          case 1: if (!x.empty()) x.erase(irand(0, (long)x.size() - 1), 1); break;
          case 2: if (!x.empty()) { char &c = x[irand(0, (long)x.size() - 1)]; c = (char)(c ^ 32); if (c == '/' || c == 0) c = 'q'; } break;
          case 3: x.insert((size_t)irand(0, (long)x.size()), pick(vector<string>{"x", ".", "l", "/"})); break;
          case 4: x = x.substr(0, (size_t)irand(0, (long)x.size())); break;
          case 5: x += x; break;
          default: break;
        }
        string f = pick(vector<string>{"", "d/", "/a.b/", "x.log/"}) + pick(vector<string>{"", "f", "f.g", ".h"}) + x;
        bool ok = wild || s.count(lastext(f));
        verdict(run([&] { valid(f); }), ok, "file " + q(f) + " with extensions " + show(vec(s)));
      }
    }
  };
  if (begin("default extensions")) {
    PropertyFileExt p;
    probe([&](const string &f) { p.propValid(f); }, {"*"});
    ArgumentFile a;
    probe([&](const string &f) { a.argValid(f); }, {"*"});
  }
  vector<string> all = exts;
  all.insert(all.end(), bad.begin(), bad.end());
  for (const string &e : all) {
    if (!begin("extension %s", q(e).c_str())) continue;
    unique_ptr<PropertyFileExt> p, p2;
    verdict(run([&] { p.reset(new PropertyFileExt(e)); }), okext(e), "constructing with " + q(e));
    verdict(run([&] { p2.reset(new PropertyFileExt(set<string>{e})); }), okext(e), "constructing with the set of " + q(e));
    if (okext(e)) {
      probe([&](const string &f) { p->propValid(f); }, {e});
      probe([&](const string &f) { p2->propValid(f); }, {e});
    }
  }
  for (int t = 0; t < (thorough ? 3000 : 300); ++t) {
    if (!begin("extension sets %d", t)) continue;
    set<string> s;
    bool ok = true;
    for (int k = irand(0, 4); k > 0; --k) {
      string e = irand(0, 9) ? pick(exts) : pick(bad);
      if (e[0] == '*' && irand(0, 2)) continue;
      s.insert(e);
      ok = ok && okext(e);
    }
    unique_ptr<PropertyFileExt> p;
    verdict(run([&] { p.reset(new PropertyFileExt(s)); }), ok, "constructing with " + show(vec(s)));
    if (ok) ++nontrivial, probe([&](const string &f) { p->propValid(f); }, s);
    if (ok) {
      PropertyFileExt o;
      ArgumentFile a;
      o.setPropOption("ALLOWED_FILE_EXT", s);
      a.setArgPropertyOpt("PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", s);
      probe([&](const string &f) { o.propValid(f); }, s);
      probe([&](const string &f) { a.argValid(f); }, s);
    }
  }
}

// ---------------------------------------------------------------- C30
static string put(const string &name) {  // an existing file, by full path
  string p = scratch + "/" + name;
  for (size_t i = scratch.size() + 1; i < p.size(); ++i)
    if (p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755);
  FILE *f = fopen(p.c_str(), "w");
  if (!f) fail("cannot write %s", p.c_str());
  fclose(f);
  return p;
}
static bool there(const string &p) {
  struct stat b;
  return stat(p.c_str(), &b) == 0;
}
template <class P> static void sister_case(P get, const string &file, const vector<string> &exts) {
  size_t s = file.rfind('/');
  string dir = s == string::npos ? "" : file.substr(0, s + 1), name = s == string::npos ? file : file.substr(s + 1);
  size_t d = name.rfind('.');
  string core = d == string::npos ? name : name.substr(0, d);
  vector<string> n, p, pn, e;
  for (const string &x : exts) {
    n.push_back(core + x);
    p.push_back(dir);
    pn.push_back(dir + core + x);
    e.push_back(there(dir + core + x) ? "true" : "false");
    if (there(dir + core + x)) ++nontrivial;
  }
  get("SISTER_FILE_NAME", n);
  get("SISTER_FILE_PATH", p);
  get("SISTER_FILE_PATH_NAME", pn);
  get("SISTER_FILE_EXISTS", e);
}
PROP(C30) {
  vector<string> made{"a.log", "a.pun", "d/b.orb", "d/b.log", "d.x/c.7", "d.x/c.pun", "c.x.log", "noext", "e.", "sp ace/f.pun", "sp ace/f.log", "g h.log", "g h.pun", ".pun", ".log"};
  for (auto &m : made) put(m);
  vector<string> stems{"a", "d/b", "d.x/c", "c.x", "c", "zz", "d/zz", "sp ace/f", "g h", "d/../a", "", "noext", "nodir/a", "d.x/d.y", "./a"};
  vector<string> tails{"", ".log", ".pun", ".7", ".", ".orb.pun"}, ex{".log", ".pun", ".7", ".orb", "", "."};
  for (bool full : {false, true})
    for (const string &st : stems)
      for (const string &ta : tails)
        for (int k = 0; k < (thorough ? 12 : 3); ++k) {
          string f = (full ? scratch + "/" : "") + st + ta;
          if (!begin("sisters of %s, %d", q(st + ta).c_str(), k)) continue;
          vector<string> exts;
          for (int n = irand(1, 4); n > 0; --n) exts.push_back(pick(ex));
          PropertySisterFile p;
          normal(run([&] { p.setPropOption("ALLOWED_SISTER_FILE_EXT", exts); }), "configuring " + show(exts));
          if (coin()) normal(run([&] { p.propValid("other/x.y"); }), "an earlier file");
          normal(run([&] { p.propValid(f); }), "checking " + q(f));
          sister_case([&](const char *o, const vector<string> &w) {
            auto g = p.getPropOption(o);
            if (g != w) fail("%s = %s with extensions %s, expected %s", o, show(g).c_str(), show(exts).c_str(), show(w).c_str());
          }, f, exts);
          ArgumentFile a;
          normal(run([&] {
                   if (exts.size() == 1) a.setArgPropertyOpt("PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT", exts[0]);
                   else a.setArgPropertyOpt("PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT", exts);
                   a.argValid(f);
                 }),
                 "file argument");
          sister_case([&](const char *o, const vector<string> &w) {
            string g = a.getPropertyValues("PROPERTY_SISTER_FILE", o);
            if (!strcmp(o, "SISTER_FILE_EXISTS")) eq(o, g, join(w));
          }, f, exts);
          if (exts.size() == 1) {
            PropertySisterFile p1;
            normal(run([&] { p1.setPropOption("ALLOWED_SISTER_FILE_EXT", exts[0]), p1.propValid(f); }), "single extension");
            sister_case([&](const char *o, const vector<string> &w) {
              if (p1.getPropOption(o) != w) fail("%s = %s, expected %s", o, show(p1.getPropOption(o)).c_str(), show(w).c_str());
            }, f, exts);
          }
        }
  for (const char *o : {"SISTER_FILE_NAME", "SISTER_FILE_PATH", "SISTER_FILE_PATH_NAME", "SISTER_FILE_EXISTS"})
    for (int way = 0; way < 4; ++way) {
      if (!begin("overwriting %s, way %d", o, way)) continue;
      PropertySisterFile p;
      ArgumentFile a;
      p.setPropOption("ALLOWED_SISTER_FILE_EXT", ".log");
      a.setArgPropertyOpt("PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT", string(".log"));
      p.propValid("a.pun");
      a.argValid("a.pun");
      auto before = p.getPropOption(o);
      string b2 = a.getPropertyValues("PROPERTY_SISTER_FILE", o);
      Out r = run([&] {
        if (way == 0) p.setPropOption(o, "fake");
        if (way == 1) p.setPropOption(o, vector<string>{"fake"});
        if (way == 2) a.setArgPropertyOpt("PROPERTY_SISTER_FILE", o, string("fake"));
        if (way == 3) a.setArgPropertyOpt("PROPERTY_SISTER_FILE", o, vector<string>{"fake"});
      });
      if (p.getPropOption(o) != before || a.getPropertyValues("PROPERTY_SISTER_FILE", o) != b2) fail("the reported value was overwritten (%s)", r.str().c_str());
    }
}

// ---------------------------------------------------------------- C31
PROP(C31) {
  vector<string> names{put("e1.txt"), put("d/e2"), put("d/f.log"), scratch + "/missing", scratch + "/d/missing.log", scratch + "/nodir/e1.txt", "", "e1.txt", "e1.txt ", "d", "missing/../e1.txt"};
  for (int t = 0; t < (thorough ? 4000 : 500); ++t) {
    if (!begin("existence checks %d", t)) continue;
    bool must = coin(), viactor = coin();
    unique_ptr<PropertyFileExist> p(viactor ? new PropertyFileExist(must) : new PropertyFileExist());
    ArgumentFile a;
    if (!viactor) {
      if (must || coin()) p->setPropOption("FILE_MUST_EXIST", must);
      else must = false;
    }
    a.setArgPropertyOpt("PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", (int)must);
    int known = 0;  // the reported flag: 0, 1, -1 unspecified (after a rejection)
    string hist;
    for (int k = irand(0, 6); k >= 0; --k) {
      if (irand(0, 5) == 0) {
        must = !must;
        hist += must ? " [must exist]" : " [may miss]";
        p->setPropOption("FILE_MUST_EXIST", must);
        a.setArgPropertyOpt("PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", (int)must);
      }
      if (irand(0, 3)) {
        string f = pick(names);
        bool e = there(f);
        hist += " " + (f.compare(0, scratch.size(), scratch) == 0 ? f.substr(scratch.size()) : q(f));
        verdict(run([&] { p->propValid(f); }), e || !must, "history" + hist);
        verdict(run([&] { a.argValid(f); }), e || !must, "argument, history" + hist);
        if (e || !must) {
          known = e;
          if (p->getPropOption("FILE_DOES_EXIST") != (int)e) fail("history%s: existence reported as %d", hist.c_str(), p->getPropOption("FILE_DOES_EXIST"));
          eq("existence after" + hist, a.getPropertyValues("PROPERTY_FILE_EXIST", "FILE_DOES_EXIST"), e ? "1" : "0");
          if (!e) ++nontrivial;
        }
      }
      int rep = p->getPropOption("FILE_DOES_EXIST"), rep2 = a.getPropertyValues("PROPERTY_FILE_EXIST", "FILE_DOES_EXIST") == "1";
      verdict(run([&] { p->postCheck(); }), !(must && !rep), "final check after" + hist);
      verdict(run([&] { a.postArgCheck(); }), !(must && !rep2), "final check of the argument after" + hist);
    }
  }
}

// ---------------------------------------------------------------- C32
template <class P, class T> static void optmodel(const char *name, const vector<string> &opts, const vector<T> &vals, const function<bool(const string &, const T &)> &mayset) {
  for (int t = 0; t < (thorough ? 800 : 60); ++t) {
    if (!begin("options of %s, history %d", name, t)) continue;
    P p, fresh;
    auto listed = p.getPropertyOptions();
    if (set<string>(listed.begin(), listed.end()) != set<string>(opts.begin(), opts.end())) fail("options listed: %s", show(listed).c_str());
    map<string, T> m;
    for (auto &o : opts) m[o] = fresh.getPropOption(o);
    for (int k = 0; k < 25; ++k) {
      string o = pick(opts);
      T v = pick(vals);
      int w = irand(0, 5);
      if (w == 0) {
        string u = pick(vector<string>{"", "UNKNOWN", o + " ", o + "X", o.substr(0, o.size() - 1), o.substr(1), "min", "NO_OPTIONS"});
        bool isopt = false;
        for (auto &x : opts) isopt = isopt || x == u;
        if (isopt) continue;
        throws(run([&] { p.setPropOption(u, v); }), "setting the unknown option " + q(u));
        throws(run([&] { p.getPropOption(u); }), "reading the unknown option " + q(u));
        ++nontrivial;
      } else if (mayset(o, v)) {
        normal(run([&] { p.setPropOption(o, v); }), "setting " + o);
        m[o] = v;
      }
      for (auto &x : opts)
        if (!(p.getPropOption(x) == m[x])) fail("step %d (%s): option %s does not read back the last value set", k, o.c_str(), x.c_str());
      auto l2 = p.getPropertyOptions();
      if (l2 != listed) fail("options listed changed to %s", show(l2).c_str());
      if (!(fresh.getPropOption(o) == P().getPropOption(o))) fail("another property changed");
    }
  }
}
PROP(C32) {
  vector<int> iv{-2147483647 - 1, -5, -1, 0, 1, 7, 2147483647};
  optmodel<PropertyInt, int>("PROPERTY_INT", {"MIN", "MAX"}, iv, [](const string &, const int &) { return true; });
  optmodel<PropertyFileExist, int>("PROPERTY_FILE_EXIST", {"FILE_MUST_EXIST", "FILE_DOES_EXIST"}, {0, 1}, [](const string &, const int &) { return true; });
  optmodel<PropertyDouble, double>("PROPERTY_DOUBLE", {"MIN", "MAX"}, {-1e300, -1.5, 0, 1e-9, 2.25, 1e300}, [](const string &, const double &) { return true; });
  optmodel<PropertyString, size_t>("PROPERTY_STRING", {"MIN_LENGTH", "MAX_LENGTH"}, {0, 1, 5, (size_t)-1, (size_t)1 << 33}, [](const string &, const size_t &) { return true; });
  optmodel<PropertySwitch, string>("PROPERTY_SWITCH", {"DEFAULT"}, {"ON", "OFF"}, [](const string &, const string &) { return true; });
  typedef set<string> S;
  optmodel<PropertyFileExt, S>("PROPERTY_FILE_EXT", {"ALLOWED_FILE_EXT"}, {S{"*"}, S{}, S{".log"}, S{".log", ".pun", ""}, S{".7"}}, [](const string &, const S &) { return true; });
  optmodel<PropertyStringChoice, S>("PROPERTY_STRING_CHOICE", {"STRING_CHOICE_ENFORCED", "STRING_CHOICES"}, {S{"true"}, S{"false"}, S{"a", "b"}, S{"true", "false"}, S{}, S{"x"}},
                                    [](const string &o, const S &v) { return o == "STRING_CHOICES" || v == S{"true"} || v == S{"false"}; });
  typedef vector<string> V;
  optmodel<PropertySisterFile, V>("PROPERTY_SISTER_FILE", {"ALLOWED_SISTER_FILE_EXT", "SISTER_FILE_NAME", "SISTER_FILE_PATH", "SISTER_FILE_PATH_NAME", "SISTER_FILE_EXISTS"},
                                  {V{".log"}, V{".pun", ".log"}, V{}, V{".7", ".orb", ".pun"}}, [](const string &o, const V &) { return o == "ALLOWED_SISTER_FILE_EXT"; });
  if (begin("single string forms")) {
    PropertyFileExt e;
    normal(run([&] { e.setPropOption("ALLOWED_FILE_EXT", string(".a")), e.setPropOption("ALLOWED_FILE_EXT", string(".b")); }), "string form");
    if (e.getPropOption("ALLOWED_FILE_EXT") != S{".b"}) fail("ALLOWED_FILE_EXT = %s", show(vec(e.getPropOption("ALLOWED_FILE_EXT"))).c_str());
    throws(run([&] { e.setPropOption("ALLOWED_FILE", string(".c")); }), "unknown option");
    PropertyStringChoice c;
    normal(run([&] { c.setPropOption("STRING_CHOICES", string("q")), c.setPropOption("STRING_CHOICE_ENFORCED", string("true")); }), "string form");
    if (c.getPropOption("STRING_CHOICES") != S{"q"} || c.getPropOption("STRING_CHOICE_ENFORCED") != S{"true"}) fail("the options do not read back");
    throws(run([&] { c.setPropOption("CHOICES", string("true")); }), "unknown option");
    PropertySisterFile f;
    normal(run([&] { f.setPropOption("ALLOWED_SISTER_FILE_EXT", string(".q")); }), "string form");
    if (f.getPropOption("ALLOWED_SISTER_FILE_EXT") != V{".q"}) fail("the option does not read back");
    throws(run([&] { f.setPropOption("ALLOWED", string(".log")); }), "unknown option");
  }
}

// ---------------------------------------------------------------- C33
PROP(C33) {
  vector<string> words{"", "a", "ab", "abc", "abcd", "HOMO", "LUMO", "x.log"};
  for (int t = 0; t < (thorough ? 4000 : 400); ++t) {
    if (!begin("string argument %d", t)) continue;
    ArgumentString a;
    set<string> ch{"NOT_DEFINED"}, enf{"false"};
    if (coin()) {
      ch.clear();
      for (int n = irand(0, 4); n > 0; --n) ch.insert(pick(words));
      a.setArgPropertyOpt("PROPERTY_STRING_CHOICE", "STRING_CHOICES", ch);
    }
    if (coin()) enf = {"true"}, a.setArgPropertyOpt("PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", enf);
    for (const string &w : words) verdict(run([&] { a.argValid(w); }), enf.count("false") || ch.count(w), "value " + q(w));
    auto all = a.getPropertyValues();
    vector<pair<string, string>> want{{"STRING_CHOICES", join(vec(ch))}, {"STRING_CHOICE_ENFORCED", *enf.begin()}, {"MIN_LENGTH", "0"}, {"MAX_LENGTH", to_string((size_t)-1)}};
    for (auto &w : want) {
      if (!ch.count("")) eq("reported " + w.first, all[w.first], w.second);
      if (!ch.count("")) eq("reported " + w.first, a.getPropertyValues(w.first[0] == 'S' ? "PROPERTY_STRING_CHOICE" : "PROPERTY_STRING", w.first), w.second);
    }
    throws(run([&] { a.getPropertyValues("PROPERTY_STRING", "STRING_CHOICES"); }), "option of another property");
    throws(run([&] { a.getPropertyValues("PROPERTY_INT", "MIN"); }), "property that is not attached");
    throws(run([&] { a.getPropertyValues("PROPERTY_STRING", "MIN"); }), "unknown option");
    throws(run([&] { a.setArgPropertyOpt("PROPERTY_INT", "MIN", 3); }), "setting a property that is not attached");
    throws(run([&] { a.setArgPropertyOpt("PROPERTY_STRING_CHOICE", "NONE", set<string>{"a"}); }), "setting an unknown option");
    ++nontrivial;
  }
  string e = put("e.log"), e2 = put("e.pun");
  vector<string> files{e, e2, scratch + "/m.log", scratch + "/m.pun", scratch + "/m", "e.log", ""};
  for (int t = 0; t < (thorough ? 4000 : 400); ++t) {
    if (!begin("file argument %d", t)) continue;
    ArgumentFile a;
    int must = coin();
    set<string> ex{"*"};
    a.setArgPropertyOpt("PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", must);
    if (irand(0, 2)) {
      ex.clear();
      for (int n = irand(1, 2); n > 0; --n) ex.insert(pick(vector<string>{".log", ".pun", "", ".x"}));
      a.setArgPropertyOpt("PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", ex);
    }
    vector<string> sis{"NOT_DEFINED"};
    if (coin()) sis = {".pun", ".log"}, a.setArgPropertyOpt("PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT", sis);
    for (int k = 0; k < 6; ++k) {
      string f = pick(files);
      bool ok = (!must || there(f)) && (ex.count("*") || ex.count(lastext(f)));
      verdict(run([&] { a.argValid(f); }), ok, "file " + q(f) + " with extensions " + show(vec(ex)) + (must ? ", must exist" : ""));
      if (ok && must) ++nontrivial;
      auto all = a.getPropertyValues();
      if (!ex.count("")) eq("extensions", all["ALLOWED_FILE_EXT"], join(vec(ex)));
      eq("must exist", all["FILE_MUST_EXIST"], to_string(must));
      eq("must exist", a.getPropertyValues("PROPERTY_FILE_EXIST", "FILE_MUST_EXIST"), to_string(must));
      eq("sisters", a.getPropertyValues("PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT"), join(sis));
      if (ok) eq("exists", a.getPropertyValues("PROPERTY_FILE_EXIST", "FILE_DOES_EXIST"), there(f) ? "1" : "0");
    }
    throws(run([&] { a.getPropertyValues("PROPERTY_FILE_EXIST", "ALLOWED_FILE_EXT"); }), "option of another property");
    throws(run([&] { a.getPropertyValues("PROPERTY_FILE", "FILE_MUST_EXIST"); }), "unknown property");
    throws(run([&] { a.setArgPropertyOpt("PROPERTY_FILE_EXIST", "MUST", 1); }), "setting an unknown option");
    throws(run([&] { a.setArgPropertyOpt("PROPERTY_FILE_EXTS", "ALLOWED_FILE_EXT", string(".log")); }), "setting an unknown property");
    throws(run([&] { a.setArgPropertyOpt("PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", 1.0); }), "setting with another type");
  }
  for (int t = 0; t < 200; ++t) {
    if (!begin("number arguments %d", t)) continue;
    ArgumentInt a;
    ArgumentDouble d;
    int lo = irand(-5, 5), hi = irand(-5, 5);
    a.setArgPropertyOpt("PROPERTY_INT", "MIN", lo);
    a.setArgPropertyOpt("PROPERTY_INT", "MAX", hi);
    d.setArgPropertyOpt("PROPERTY_DOUBLE", "MIN", (double)lo);
    d.setArgPropertyOpt("PROPERTY_DOUBLE", "MAX", (double)hi);
    for (int v = -7; v <= 7; ++v) {
      verdict(run([&] { a.argValid(v); }), lo <= v && v <= hi, "value " + to_string(v));
      verdict(run([&] { d.argValid(v); }), lo <= v && v <= hi, "value " + to_string(v));
    }
    eq("MIN", a.getPropertyValues("PROPERTY_INT", "MIN"), to_string(lo));
    eq("MAX", a.getPropertyValues("PROPERTY_INT", "MAX"), to_string(hi));
    eq("MIN", d.getPropertyValues("PROPERTY_DOUBLE", "MIN"), to_string((double)lo));
    eq("MAX", d.getPropertyValues("PROPERTY_DOUBLE", "MAX"), to_string((double)hi));
    eq("MIN", d.getPropertyValues()["MIN"], to_string((double)lo));
    eq("MAX", a.getPropertyValues()["MAX"], to_string(hi));
    throws(run([&] { a.getPropertyValues("PROPERTY_DOUBLE", "MIN"); }), "property that is not attached");
    throws(run([&] { d.getPropertyValues("PROPERTY_DOUBLE", "min"); }), "unknown option");
    throws(run([&] { d.setArgPropertyOpt("PROPERTY_DOUBLE", "MID", 1.0); }), "setting an unknown option");
    ArgumentSwitch s;
    eq("DEFAULT", s.getPropertyValues("PROPERTY_SWITCH", "DEFAULT"), "OFF");
    s.setArgPropertyOpt("PROPERTY_SWITCH", "DEFAULT", string("ON"));
    eq("DEFAULT", s.getPropertyValues("PROPERTY_SWITCH", "DEFAULT"), "ON");
    throws(run([&] { s.setArgPropertyOpt("PROPERTY_SWITCH", "NOPE", string("ON")); }), "setting an unknown option");
    {
      // names that are nearly those of a property or an option
      ArgumentString st;
      ArgumentFile f;
      auto near = [](const string &w, const function<void(const string &)> &use) {
        for (auto &x : {w.substr(0, w.size() - 1), w.substr(1), w.substr(0, 1), string(), w + " ", w + w.back(), " " + w, w.substr(0, w.size() - 1) + "?"})
          throws(run([&] { use(x); }), "the name " + q(x) + " for " + w);
      };
      auto both = [&](const string &prop, const string &opt, const function<void(const string &, const string &)> &use) {
        normal(run([&] { use(prop, opt); }), prop + " " + opt);
        near(prop, [&](const string &x) { use(x, opt); });
        near(opt, [&](const string &x) { use(prop, x); });
      };
      both("PROPERTY_INT", "MIN", [&](const string &x, const string &y) { a.getPropertyValues(x, y); });
      both("PROPERTY_DOUBLE", "MAX", [&](const string &x, const string &y) { d.getPropertyValues(x, y); });
      both("PROPERTY_SWITCH", "DEFAULT", [&](const string &x, const string &y) { s.getPropertyValues(x, y); });
      both("PROPERTY_STRING", "MAX_LENGTH", [&](const string &x, const string &y) { st.getPropertyValues(x, y); });
      both("PROPERTY_STRING_CHOICE", "STRING_CHOICES", [&](const string &x, const string &y) { st.getPropertyValues(x, y); });
      both("PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", [&](const string &x, const string &y) { f.getPropertyValues(x, y); });
      both("PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT", [&](const string &x, const string &y) { f.getPropertyValues(x, y); });
      both("PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", [&](const string &x, const string &y) { f.getPropertyValues(x, y); });
      both("PROPERTY_INT", "MIN", [&](const string &x, const string &y) { a.setArgPropertyOpt(x, y, -1000); });
      both("PROPERTY_DOUBLE", "MAX", [&](const string &x, const string &y) { d.setArgPropertyOpt(x, y, 1000.5); });
      both("PROPERTY_SWITCH", "DEFAULT", [&](const string &x, const string &y) { s.setArgPropertyOpt(x, y, string("ON")); });
      both("PROPERTY_STRING_CHOICE", "STRING_CHOICES", [&](const string &x, const string &y) { st.setArgPropertyOpt(x, y, set<string>{"u"}); });
      both("PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT", [&](const string &x, const string &y) { f.setArgPropertyOpt(x, y, vector<string>{".u"}); });
    }
    throws(run([&] { s.argValid("maybe"); }), "switch value");
  }
}

// ---------------------------------------------------------------- C34, C35
struct F {
  string full, brief;
  int type;  // 0 string 1 switch 2 int 3 double 4 file 5 nothing registered
};
static vector<F> flags8() {
  return {{"--name", "-n", 0}, {"--names", "-ns", 0},   {"--cp", "-c", 1}, {"--verbose", "", 1}, {"--num", "-i", 2}, {"--count", "-k", 2},
          {"--tol", "-t", 3},  {"--eps", "-e", 3}, {"--in", "-f", 4}, {"--out", "-o", 4}, {"--plain", "-p", 5}};
}
static unique_ptr<ArgumentParser> mkparser(const vector<F> &fl) {
  set<vector<string>> s;
  int k = 0;
  for (auto &f : fl) {
    vector<string> v{f.full};
    if (!f.brief.empty()) v.push_back(f.brief);
    v.push_back("description " + to_string(k++));
    s.insert(v);
  }
  unique_ptr<ArgumentParser> p(new ArgumentParser(s));
  const char *ty[] = {"ARGUMENT_STRING", "ARGUMENT_SWITCH", "ARGUMENT_INT", "ARGUMENT_DOUBLE", "ARGUMENT_FILE"};
  for (auto &f : fl)
    if (f.type < 5) p->addFlagArg(f.full, ty[f.type]);
  p->setFlagArgOpt("--names", "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE", "STRING_CHOICES", set<string>{"red", "blue", "--name", "-c"});
  p->setFlagArgOpt("--names", "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", string("true"));
  p->setFlagArgOpt("--count", "ARGUMENT_INT", "PROPERTY_INT", "MIN", 0);
  p->setFlagArgOpt("--count", "ARGUMENT_INT", "PROPERTY_INT", "MAX", 9);
  p->setFlagArgOpt("--eps", "ARGUMENT_DOUBLE", "PROPERTY_DOUBLE", "MIN", 0.0);
  p->setFlagArgOpt("--eps", "ARGUMENT_DOUBLE", "PROPERTY_DOUBLE", "MAX", 1.0);
  p->setFlagArgOpt("--out", "ARGUMENT_FILE", "PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", set<string>{".log", ".pun"});
  return p;
}
static Out parse(ArgumentParser &p, const vector<string> &args) {
  vector<string> a{"prog"};
  a.insert(a.end(), args.begin(), args.end());
  vector<const char *> v;
  for (auto &x : a) v.push_back(x.c_str());
  return run([&] { p.parse(v.data(), v.size()); });
}
struct Val {
  bool si = false, ss = false, sd = false;
  int i = 0;
  double d = 0;
  string s;
};
static const F *findflag(const vector<F> &fl, const string &a) {
  for (auto &f : fl)
    if (f.full == a) return &f;
  for (auto &f : fl)
    if (!f.brief.empty() && f.brief == a) return &f;
  return nullptr;
}
static bool onoff(const string &v, bool &on) {
  on = v == "1" || v == "ON" || v == "TRUE";
  return on || v == "0" || v == "OFF" || v == "FALSE";
}
// what the command line means; false: it has to be rejected
static bool model(const vector<F> &fl, const vector<string> &a, map<string, Val> &m) {
  if (a.empty()) return false;
  for (size_t i = 0; i < a.size(); ++i) {
    const F *f = findflag(fl, a[i]);
    if (!f || f->type == 5) return false;
    Val v;
    if (f->type == 1 && (i + 1 == a.size() || findflag(fl, a[i + 1]))) {
      v.si = v.ss = true;
      v.i = 1;
      v.s = "ON";
      m[f->full] = v;
      continue;
    }
    if (i + 1 == a.size()) return false;
    string x = a[++i];
    if (f->type == 1) {
      bool on;
      if (!onoff(x, on)) return false;
      v.si = v.ss = true;
      v.i = on;
      v.s = x;
    } else if (f->type == 2) {
      char *e;
      long n = strtol(x.c_str(), &e, 10);
      if (x.empty() || *e) return false;
      if (f->full == "--count" && (n < 0 || n > 9)) return false;
      v.si = true;
      v.i = n;
    } else if (f->type == 3) {
      char *e;
      v.d = strtod(x.c_str(), &e);
      if (x.empty() || *e) return false;
      if (f->full == "--eps" && (v.d < 0 || v.d > 1)) return false;
      v.sd = true;
    } else {
      if (f->full == "--names" && !set<string>{"red", "blue", "--name", "-c"}.count(x)) return false;
      if (f->full == "--out" && lastext(x) != ".log" && lastext(x) != ".pun") return false;
      v.ss = true;
      v.s = x;
    }
    m[f->full] = v;
  }
  return true;
}
static void values(ArgumentParser &p, const vector<F> &fl, const map<string, Val> &m, const string &where) {
  for (auto &f : fl) {
    Val v;
    auto it = m.find(f.full);
    if (it != m.end()) v = it->second;
    int i = -99;
    double d = -99;
    string s;
    Out oi = run([&] { i = p.getInt(f.full); }), od = run([&] { d = p.getDouble(f.full); }), os = run([&] { s = p.getStr(f.full); });
    verdict(oi, v.si, where + ": getInt(" + f.full + ")");
    verdict(od, v.sd, where + ": getDouble(" + f.full + ")");
    verdict(os, v.ss, where + ": getStr(" + f.full + ")");
    if (v.si && i != v.i) fail("%s: %s is %d instead of %d", where.c_str(), f.full.c_str(), i, v.i);
    if (v.sd && d != v.d) fail("%s: %s is %.17g instead of %.17g", where.c_str(), f.full.c_str(), d, v.d);
    if (v.ss && s != v.s) {
      bool a, b;
      if (f.type == 1 && onoff(s, a) && onoff(v.s, b) && a == b && it == m.end()) continue;
      fail("%s: %s is %s instead of %s", where.c_str(), f.full.c_str(), q(s).c_str(), q(v.s).c_str());
    }
  }
}
static string goodvalue(const F &f) {
  switch (f.type) {
    case 0: return f.full == "--names" ? pick(vector<string>{"red", "blue", "--name", "-c"}) : pick(vector<string>{"x", "", "two words", "--num", "-c", "red", "-1", "--nam", "name"});
    case 1: return pick(vector<string>{"ON", "OFF", "TRUE", "FALSE", "0", "1"});
    case 2: return f.full == "--count" ? to_string(irand(0, 9)) : pick(vector<string>{"0", "-1", "17", "-2147483648", "2147483647", "1"});
    case 3: return f.full == "--eps" ? pick(vector<string>{"0", "1", "0.5", "1e-9"}) : pick(vector<string>{"-1.5", "1e300", "3", "0", "-0.25e-3"});
    default: return f.full == "--out" ? pick(vector<string>{"a.log", "dir/b.pun", "x y.log"}) : pick(vector<string>{"a.log", "b", "", "d.x/y", "--cp"});
  }
}
PROP(C34) {
  auto fl = flags8();
  for (int t = 0; t < (thorough ? 20000 : 2500); ++t) {
    if (!begin("command line %d", t)) continue;
    vector<string> a;
    int n = t < 40 ? 1 : irand(1, 6), bad = irand(0, 3) ? -1 : (int)irand(0, n - 1);
    for (int k = 0; k < n; ++k) {
      const F &f = fl[irand(0, 9)];
      a.push_back(f.brief.empty() || coin() ? f.full : f.brief);
      if (k == bad) {
        switch (irand(0, 4)) {
          case 0: a.back() = pick(vector<string>{"--nope", "-x", "--nam", "--namess", "name", "-", "--", "", "--NUM", "--num=3", "--plain", "-p"}); break;
          case 1: if (k == n - 1 || f.type == 1) break; a.push_back("rubbish"); break;
          case 2: a.push_back(pick(vector<string>{"10", "-1", "1.5", "green", "a.txt", "2", "on", "yes"})); break;
          case 3: a.push_back(goodvalue(f)); a.push_back("stray"); break;
          default: break;
        }
      } else if (f.type != 1 || irand(0, 2))
        a.push_back(goodvalue(f));
    }
    // "1.5" and the like for whole numbers are outside the property (the code reads the leading number)
    bool skip = false;
    for (size_t i = 0; i + 1 < a.size(); ++i) {
      const F *f = findflag(fl, a[i]);
      if (f && (f->type == 2 || f->type == 3)) {
        char *e;
        const char *s = a[i + 1].c_str();
        f->type == 2 ? (void)strtol(s, &e, 10) : (void)strtod(s, &e);
        if (e != s && *e) skip = true;
      }
    }
    if (skip) continue;
    map<string, Val> m;
    bool ok = model(fl, a, m);
    auto p = mkparser(fl);
    Out o = parse(*p, a);
    verdict(o, ok, "parsing " + show(a));
    if (ok) values(*p, fl, m, show(a));
    else ++nontrivial;
    if (ok && coin()) {  // a second command line adds to the first
      vector<string> b;
      const F &f = fl[irand(0, 9)];
      b.push_back(f.full);
      b.push_back(goodvalue(f));
      if (model(fl, b, m)) {
        normal(parse(*p, b), "parsing " + show(a) + " then " + show(b));
        values(*p, fl, m, show(a) + " then " + show(b));
      }
    }
  }
  for (auto &f : fl)
    for (auto &g : fl) {  // every flag before every other one
      if (f.type == 5 || g.type == 5) continue;
      for (int k = 0; k < 4; ++k) {
        if (!begin("flags %s %s, %d", f.full.c_str(), g.full.c_str(), k)) continue;
        vector<string> a{(k & 1) && !f.brief.empty() ? f.brief : f.full};
        if (f.type != 1 || (k & 2)) a.push_back(goodvalue(f));
        a.push_back((k & 2) && !g.brief.empty() ? g.brief : g.full);
        if (g.type != 1 || (k & 1)) a.push_back(goodvalue(g));
        map<string, Val> m;
        bool ok = model(fl, a, m);
        auto p = mkparser(fl);
        verdict(parse(*p, a), ok, "parsing " + show(a));
        if (ok) values(*p, fl, m, show(a));
      }
    }
  if (begin("no arguments")) {
    auto p = mkparser(fl);
    throws(parse(*p, {}), "an empty command line");
  }
}
PROP(C35) {
  auto fl = flags8();
  for (int t = 0; t < (thorough ? 10000 : 1500); ++t) {
    if (!begin("defaults %d", t)) continue;
    auto p = mkparser(fl);
    map<string, Val> m;
    set<string> sz;
    string desc;
    for (auto &f : fl) {
      if (irand(0, 2) == 0) continue;
      Val v;
      string d;
      // a default may be set again: the last one counts
      if (irand(0, 2) == 0) {
        if (f.type == 0 || f.type == 4 || f.type == 5) p->setFlagDefaultValue(f.full, string("earlier"));
        else if (f.type == 2) p->setFlagDefaultValue(f.full, 77);
        else if (f.type == 3) p->setFlagDefaultValue(f.full, 7.75);
        if (f.type != 1) desc += " (set before)";
      }
      if (f.type == 0 || f.type == 4 || f.type == 5) v.ss = true, v.s = d = pick(vector<string>{"dflt", "", "a.log"}), p->setFlagDefaultValue(f.full, v.s);
      else if (f.type == 1) {
        v.ss = v.si = true;
        v.i = coin();
        if (coin()) {
          v.s = v.i ? "ON" : "OFF";
          d = to_string(v.i);
          p->setFlagDefaultValue(f.full, v.i);
        } else {
          v.s = d = v.i ? pick(vector<string>{"ON", "TRUE", "1"}) : pick(vector<string>{"OFF", "FALSE", "0"});
          p->setFlagDefaultValue(f.full, v.s);
        }
      } else if (f.type == 2) v.si = true, v.i = irand(-9, 9), d = to_string(v.i), p->setFlagDefaultValue(f.full, v.i);
      else v.sd = true, v.d = irand(-9, 9) / 4.0, d = to_string(v.d), p->setFlagDefaultValue(f.full, v.d);
      m[f.full] = v;
      desc += " " + f.full + "=" + q(d);
    }
    values(*p, fl, m, "defaults" + desc);
    vector<string> a;
    for (int k = irand(1, 4); k > 0; --k) {
      const F &f = fl[irand(0, 9)];
      a.push_back(f.full);
      if (f.type != 1 || coin()) a.push_back(f.full == "--name" ? "given" : f.full == "--in" ? "given.x" : goodvalue(f));
    }
    if (!model(fl, a, m)) continue;
    ++nontrivial;
    normal(parse(*p, a), "defaults" + desc + ", parsing " + show(a));
    values(*p, fl, m, "defaults" + desc + ", parsed " + show(a));
    for (auto &f : fl)
      if (f.type == 1 && m.count(f.full)) {
        bool on = false;
        int i = p->getInt(f.full);
        string s = p->getStr(f.full);
        if (!onoff(s, on) || i != (int)on) fail("switch %s reads as %d and %s", f.full.c_str(), i, q(s).c_str());
      }
  }
  if (begin("sizes")) {
    auto p = mkparser(fl);
    throws(run([&] { p->getSize_t("--num"); }), "a size without default");
    p->setFlagDefaultValue("--num", (size_t)42);
    size_t v = 0;
    normal(run([&] { v = p->getSize_t("--num"); }), "a size with default");
    if (v != 42) fail("the size is %zu instead of 42", v);
    p->setFlagDefaultValue("--num", (size_t)7);
    normal(run([&] { v = p->getSize_t("--num"); }), "a size with a second default");
    if (v != 7) fail("the size is %zu instead of 7", v);
    throws(run([&] { p->getSize_t("--count"); }), "a size without default");
    throws(run([&] { p->getStr("--unknown"); }), "unknown flag");
    throws(run([&] { p->getInt("--unknown"); }), "unknown flag");
    throws(run([&] { p->getDouble("--unknown"); }), "unknown flag");
  }
}

// ---------------------------------------------------------------- C36
PROP(C36) {
  const char *fn[6] = {"--pun_P", "--pun_1", "--pun_2", "--log_P", "--log_1", "--log_2"};
  const char *sh[6] = {"-p_P", "-p_1", "-p_2", "-l_P", "-l_1", "-l_2"};
  vector<string> dirs{"d1/", "d.2/", "", "sp ace/", "d1/two  blanks/"};
  for (auto &d : dirs)
    for (const char *n : {"both", "b.oth", "pun", "log"}) {
      string s = n;
      if (s != "log") put(d + n + ".pun");
      if (s != "pun") put(d + n + ".log");
    }
  put("d1/both.orb");
  put("d.2/both.7");
  for (int t = 0; t < (thorough ? 12000 : 1500); ++t) {
    if (!begin("run settings %d", t)) continue;
    string given[6];
    vector<string> a;
    bool all = irand(0, 3) != 0;
    for (int i = 0; i < 3; ++i) {
      // mostly something usable for both files of the pair
      int w = irand(0, all ? 4 : 8);
      string d = (coin() ? scratch + "/" : "") + pick(dirs), n = pick(vector<string>{"both", "b.oth"});
      if (w == 0 || w == 1 || w > 4) given[i] = d + n + ".pun";
      if (w == 0 || w == 2) given[i + 3] = (coin() ? d : pick(dirs)) + pick(vector<string>{"both", "b.oth"}) + ".log";
      if (w == 3) given[i] = d + "pun.pun", given[i + 3] = pick(dirs) + "log.log";
      if (w == 4) given[i] = d + "log.pun", given[i + 3] = d + "log.log", given[i] = coin() ? given[i] : pick(dirs) + "both.pun";
      if (w == 5) given[i] = d + "pun.pun";
      if (w == 6) given[i] = "", given[i + 3] = d + "log.log";
      if (w == 7) given[i] = given[i + 3] = "";
      if (w == 8) given[i] = d + "missing.pun", given[i + 3] = coin() ? d + "both.log" : "";
    }
    vector<int> order{0, 1, 2, 3, 4, 5};
    for (int i = 5; i > 0; --i) swap(order[i], order[irand(0, i)]);
    for (int i : order)
      if (!given[i].empty()) {
        a.push_back(coin() ? fn[i] : sh[i]);
        a.push_back(given[i]);
      }
    string spin[3] = {"Alpha", "Alpha", "Alpha"}, orb[2] = {"HOMO", "HOMO"};
    int num[2] = {0, 0};
    bool cp = false;
    const char *sf[3] = {"--spin_P", "--spin_1", "--spin_2"}, *of[2] = {"--orbital_type_1", "--orbital_type_2"}, *nf[2] = {"--orbital_num_1", "--orbital_num_2"};
    const char *sfs[3] = {"-s_P", "-s_1", "-s_2"}, *ofs[2] = {"-orb_ty_1", "-orb_ty_2"}, *nfs[2] = {"-orb_num_1", "-orb_num_2"};
    for (int i = 0; i < 3; ++i)
      if (coin()) spin[i] = pick(vector<string>{"Alpha", "Beta"}), a.push_back(coin() ? sf[i] : sfs[i]), a.push_back(spin[i]);
    for (int i = 0; i < 2; ++i) {
      if (coin()) orb[i] = pick(vector<string>{"HOMO", "LUMO"}), a.push_back(coin() ? of[i] : ofs[i]), a.push_back(orb[i]);
      if (coin()) num[i] = irand(0, 7) ? (orb[i] == "HOMO" ? -1 : 1) * irand(0, 4) : irand(-3, 3), a.push_back(coin() ? nf[i] : nfs[i]), a.push_back(to_string(num[i]));
    }
    if (coin()) {
      string v = pick(vector<string>{"", "ON", "OFF", "1", "0", "TRUE", "FALSE"});
      cp = v == "" || v == "ON" || v == "1" || v == "TRUE";
      a.push_back(coin() ? "--counter_poise" : "-cp");
      if (v.empty() && !a.empty()) {
        // without a value it has to be followed by a flag or nothing
      } else
        a.push_back(v);
    }
    if (a.empty()) continue;
    string want[6];
    bool ok = true, sister = false;
    for (int i = 0; i < 6; ++i) {
      int o = (i + 3) % 6;
      if (!given[i].empty() && there(given[i])) {
        want[i] = given[i];
        continue;
      }
      if (!given[o].empty()) {
        string s = given[o].substr(0, given[o].rfind('.')) + (i < 3 ? ".pun" : ".log");
        if (there(s)) {
          want[i] = s;
          sister = true;
          continue;
        }
      }
      ok = false;
    }
    bool numok = true;
    for (int i = 0; i < 2; ++i) numok = numok && !(orb[i] == "HOMO" ? num[i] > 0 : num[i] < 0);
    unique_ptr<ArgumentParser> ap;
    unique_ptr<Parameters> par;
    string d = show(a);
    normal(run([&] { ap = prepareParser(); }), "preparing the parser");
    normal(parse(*ap, a), "parsing " + d);
    Out o = run([&] { par = prepareParameters(ap); });
    verdict(o, ok && numok, "settings from " + d);
    if (!ok || !numok) continue;
    if (sister) ++nontrivial;
    ParMod m;
    m.s[0] = want[4], m.s[1] = want[5], m.s[2] = want[3], m.s[3] = want[1], m.s[4] = want[2], m.s[5] = want[0];
    m.s[6] = spin[1], m.s[7] = spin[2], m.s[8] = spin[0];
    m.s[9] = orb[0], m.s[10] = orb[1];
    m.n[0] = num[0], m.n[1] = num[1];
    m.b[0] = cp;
    ParMod g = snap(*par);
    m.s[11] = g.s[11], m.n[2] = g.n[2];
    parcheck(*par, m, "preparing " + d);
  }
}
