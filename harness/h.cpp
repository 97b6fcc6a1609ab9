#include "h.hpp"
#include <map>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <typeinfo>
extern "C" {
void __real_exit(int);
void __wrap_exit(int);
void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
const char *__asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:exitcode=3:detect_stack_use_after_return=0:max_malloc_fill_size=65536:malloc_fill_byte=190:free_fill_byte=221"; }
const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=3"; }
}
namespace h {
long ncase = 0, only = -1, nontrivial = 0, seed = 1;
bool thorough = false;
std::string cur, scratch;
std::mt19937_64 rng;
static int outfd = 1;
static sigjmp_buf jb;
static std::vector<std::string> samples;
static long next_sample = 2;
static volatile bool guarded = false;
static volatile int exit_code = 0;
static std::map<std::string, void (*)()> &props() {
  static std::map<std::string, void (*)()> m;
  return m;
}
void prop(const char *id, void (*f)()) { props()[id] = f; }
// seen by the supervising process, which reports when this one dies without a word
static struct Shared {
  volatile bool said;
  volatile long ncase;
  char cur[4096];
} *shared = nullptr;
static void say(const std::string &s) {
  if (shared && (s.compare(0, 4, "FAIL") == 0 || s.compare(0, 2, "OK") == 0)) shared->said = true;
  std::string t = s + "\n";
  if (write(outfd, t.data(), t.size()) < 0) _exit(4);
}
void known(const std::string &key, const std::string &text) { say("KNOWN " + key + " " + text); }
static void cleanup() {
  if (!scratch.empty()) {
    std::string c = "rm -rf -- '" + scratch + "'";
    if (!getenv("H_KEEP") && system(c.c_str())) {}
  }
}
static void finish(int code) {
  cleanup();
  _exit(code);
}
static std::string vf(const char *fmt, va_list ap) {
  char b[4096];
  vsnprintf(b, sizeof b, fmt, ap);
  return b;
}
bool begin(const char *fmt, ...) {
  ++ncase;
  if (only >= 0 && ncase != only) return false;
  va_list ap;
  va_start(ap, fmt);
  cur = vf(fmt, ap);
  va_end(ap);
  if (shared) {
    shared->ncase = ncase;
    snprintf(shared->cur, sizeof shared->cur, "%s", cur.c_str());
  }
  if (ncase == next_sample && samples.size() < 6) {
    samples.push_back(cur.substr(0, 300));
    next_sample *= 5;
  }
  rng.seed(seed * 1000003L + ncase);
  return true;
}
static std::string oneline(std::string s) {
  std::string r;
  for (char c : s) r += (c == '\n' || c == '\r') ? std::string("\\n") : std::string(1, c);
  return r;
}
void fail(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  std::string m = vf(fmt, ap);
  va_end(ap);
  say("FAIL case=" + std::to_string(ncase) + " input: " + oneline(cur) + " :: " + oneline(m));
  finish(1);
  __builtin_unreachable();
}
std::string Out::str() const {
  if (kind == RET) return "returned";
  if (kind == EXITED) return "exit(" + std::to_string(code) + ")";
  if (kind == HUNG) return "did not terminate";
  return "threw " + type;
}
static void on_alarm(int) {
  say("FAIL case=" + std::to_string(ncase) + " input: " + oneline(cur) + " :: the call does not terminate");
  finish(1);
}
static void on_death() {
  say("FAIL case=" + std::to_string(ncase) + " input: " + oneline(cur) + " :: invalid memory access or undefined behaviour (sanitizer report)");
  cleanup();
}
static void on_sig(int s) {
  say("FAIL case=" + std::to_string(ncase) + " input: " + oneline(cur) + " :: killed by signal " + std::to_string(s));
  finish(1);
}
Out run(const std::function<void()> &f) {
  Out o;
  o.kind = RET;
  guarded = true;
  alarm(10);
  if (sigsetjmp(jb, 1)) {
    guarded = false;
    alarm(0);
    o.kind = EXITED;
    o.code = exit_code;
    return o;
  }
  try {
    f();
  } catch (const std::invalid_argument &e) {
    o.kind = THREW, o.type = "invalid_argument";
  } catch (const std::out_of_range &e) {
    o.kind = THREW, o.type = "out_of_range";
  } catch (const std::runtime_error &e) {
    o.kind = THREW, o.type = "runtime_error";
  } catch (const std::bad_alloc &e) {
    o.kind = THREW, o.type = "bad_alloc";
  } catch (const std::exception &e) {
    o.kind = THREW, o.type = std::string("exception ") + typeid(e).name();
  } catch (const char *e) {
    o.kind = THREW, o.type = "text";
  } catch (...) {
    o.kind = THREW, o.type = "unknown";
  }
  guarded = false;
  alarm(0);
  return o;
}
std::string tmpfile(const std::string &name, const std::string &content) {
  std::string p = scratch + "/" + name;
  FILE *f = fopen(p.c_str(), "wb");
  if (!f) abort();
  fwrite(content.data(), 1, content.size(), f);
  fclose(f);
  return p;
}
std::string q(const std::string &s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') r += std::string("\\") + (char)c;
    else if (c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else r += (char)c;
  }
  return r + "\"";
}
}  // namespace h
using namespace h;
extern "C" void __wrap_exit(int c) {
  if (guarded) {
    exit_code = c;
    guarded = false;
    siglongjmp(jb, 1);
  }
  finish(c ? 4 : 0);
}
int main(int argc, char **argv) {
  if (argc < 4) return 4;
  std::string id = argv[1];
  seed = atol(argv[2]);
  thorough = std::string(argv[3]) == "thorough";
  if (argc > 4) only = atol(argv[4]);
  outfd = dup(1);
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  if (!getenv("H_STDERR") ) dup2(nul, 2);
  const char *base = getenv("H_TMP");
  std::string t = std::string(base ? base : "/tmp") + "/ccvh.XXXXXX";
  if (!mkdtemp(&t[0])) return 4;
  scratch = t;
  if (chdir(t.c_str())) return 4;
  shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (shared == MAP_FAILED) return 4;
  pid_t child = fork();
  if (child < 0) return 4;
  if (child > 0) {
    int st = 0;
    waitpid(child, &st, 0);
    if (!shared->said) {
      std::string why = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : WEXITSTATUS(st) == 3 ? "invalid memory access or undefined behaviour (sanitizer report)" : "ended unexpectedly";
      say("FAIL case=" + std::to_string(shared->ncase) + " input: " + oneline(shared->cur) + " :: " + why);
      cleanup();
      _exit(1);
    }
    cleanup();
    _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 1);
  }
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  signal(SIGALRM, on_alarm);
  signal(SIGABRT, on_sig);
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
  auto it = props().find(id);
  if (it == props().end()) {
    say("NO SUCH PROPERTY");
    finish(4);
  }
  rng.seed(seed);
  try {
    it->second();
  } catch (const std::exception &e) {
    fail("unexpected exception %s", e.what());
  } catch (...) {
    fail("unexpected exception");
  }
  for (auto &x : samples) say("SAMPLE " + oneline(x));
  say("OK cases=" + std::to_string(ncase) + " nontrivial=" + std::to_string(nontrivial));
  finish(0);
}
