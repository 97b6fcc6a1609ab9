// Harness framework: guarded calls of the real code, exact replay of single cases.
#pragma once
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <random>
#include <stdexcept>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>

namespace h {
extern long ncase, only, nontrivial, seed;
extern bool thorough;
extern std::string cur;
extern std::mt19937_64 rng;
extern std::string scratch;

// start of a case; false: skip it (replay of another one)
bool begin(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
inline void check(bool ok, const std::string &what) {
  if (!ok) fail("%s", what.c_str());
}
enum Kind { RET, EXITED, THREW, HUNG };
struct Out {
  Kind kind;
  int code = 0;
  std::string type;
  bool ret() const { return kind == RET; }
  // an error of any form (what properties call refused / rejected)
  bool refused() const { return kind == THREW || (kind == EXITED && code != 0); }
  bool threw() const { return kind == THREW; }
  std::string str() const;
};
Out run(const std::function<void()> &f);
inline long irand(long a, long b) { return a + (long)(rng() % (unsigned long)(b - a + 1)); }
inline bool coin() { return rng() & 1; }
template <class T> const T &pick(const std::vector<T> &v) { return v[rng() % v.size()]; }
std::string tmpfile(const std::string &name, const std::string &content);
std::string q(const std::string &s);  // quoted, escaped
void known(const std::string &key, const std::string &text);  // report a listed finding
void prop(const char *id, void (*f)());
}  // namespace h
#define PROP(id)                                       \
  static void prop_##id();                             \
  static struct Reg_##id {                             \
    Reg_##id() { h::prop(#id, prop_##id); }            \
  } reg_##id;                                          \
  static void prop_##id()
