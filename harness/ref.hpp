#pragma once
#include "h.hpp"
#include "libcatnip/matrix.hpp"
struct Ref {
  int r = 0, c = 0, s = 0;
  std::vector<double> e;
  Ref() {}
  Ref(int r_, int c_, int s_ = 1) : r(r_), c(c_), s(s_), e((size_t)r_ * c_ * s_, 0.0) {}
  double &at(int i, int j, int k = 1) { return e.at(((size_t)(i - 1) * c + (j - 1)) * s + (k - 1)); }
  double at(int i, int j, int k = 1) const { return e.at(((size_t)(i - 1) * c + (j - 1)) * s + (k - 1)); }
  bool in(int i, int j, int k = 1) const { return i >= 1 && i <= r && j >= 1 && j <= c && k >= 1 && k <= s; }
  bool operator==(const Ref &o) const { return r == o.r && c == o.c && s == o.s && e == o.e; }
};
inline Ref rndref(int r, int c, int s = 1, int style = 0) {
  Ref m(r, c, s);
  double x = 1;
  for (auto &v : m.e) {
    if (style == 0) v = (x += 1) * (h::coin() ? 1 : -1) + 0.25 * (double)h::irand(0, 3);   // all distinct
    else if (style == 1) v = (double)h::irand(-2, 2);
    else if (style == 3) {   // every magnitude, all digits, signed zeros, and a few plain numbers
      static const double m[] = {1e-300, 1e-30, 1e-13, 1e-9, 1e-6, 1e-3, 0.1, 1, 10, 1e7, 1e15, 1e39, 1e300};
      int q = h::irand(0, 14);
      v = q > 12 ? (q == 13 ? 0.0 : -0.0) : m[q] * ((x += 1) + h::irand(1, 999) / 1000.0) * (h::coin() ? 1 : -1);
    }
    else v = (double)h::irand(-1000000, 1000000) / 1024.0;
  }
  return m;
}
inline int vary() { return h::irand(0, 2) ? 0 : 3; }
inline catnip::Matrix mk(const Ref &m) {
  if (m.r == 0 && m.c == 0 && m.s == 0) return catnip::Matrix(0);
  catnip::Matrix x(m.r, m.c, m.s);
  for (int i = 1; i <= m.r; ++i)
    for (int j = 1; j <= m.c; ++j)
      for (int k = 1; k <= m.s; ++k) x.set_elem(m.at(i, j, k), i, j, k);
  return x;
}
inline Ref of(const catnip::Matrix &x) {
  Ref m(x.get_rows(), x.get_cols(), x.get_shel());
  for (int i = 1; i <= m.r; ++i)
    for (int j = 1; j <= m.c; ++j)
      for (int k = 1; k <= m.s; ++k) m.at(i, j, k) = x.get_elem(i, j, k);
  return m;
}
inline std::string show(const Ref &m) {
  std::string s = std::to_string(m.r) + "x" + std::to_string(m.c) + "x" + std::to_string(m.s) + "[";
  for (size_t i = 0; i < m.e.size() && i < 24; ++i) s += (i ? " " : "") + std::to_string(m.e[i]);
  return s + (m.e.size() > 24 ? " ...]" : "]");
}
inline void same(const catnip::Matrix &x, const Ref &m, const std::string &what) {
  if (x.get_rows() != m.r || x.get_cols() != m.c || x.get_shel() != m.s)
    h::fail("%s: size is %dx%dx%d, expected %dx%dx%d", what.c_str(), x.get_rows(), x.get_cols(), x.get_shel(), m.r, m.c, m.s);
  Ref g = of(x);
  for (int i = 1; i <= m.r; ++i)
    for (int j = 1; j <= m.c; ++j)
      for (int k = 1; k <= m.s; ++k)
        if (!(g.at(i, j, k) == m.at(i, j, k)))
          h::fail("%s: element (%d,%d,%d) is %.17g, expected %.17g", what.c_str(), i, j, k, g.at(i, j, k), m.at(i, j, k));
}
