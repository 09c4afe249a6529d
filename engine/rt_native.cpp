// Native counterpart of rt.cpp: the same harness API on concrete values read from replay files.
// Linked with the *un-instrumented* code of upppp_rust + harnesses.
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <signal.h>
using std::string;
static std::map<string, double> vars;
static std::deque<long> choices;
static bool failed, stopped;
static string firstFail;
extern "C" {
int sym_is_symbolic_build() { return 0; }
int nat_load(const char* f, size_t n) {
  // a run without an end is ended by the signal
  signal(SIGALRM, SIG_DFL);
  alarm(30);
  vars.clear(); choices.clear(); failed = stopped = false; firstFail.clear();
  FILE* i = fopen(string(f, n).c_str(), "r");
  if (!i) return 0;
  char line[4096];
  while (fgets(line, sizeof line, i)) {
    char name[2048]; double v; long c;
    if (sscanf(line, "choose %ld", &c) == 1) choices.push_back(c);
    else if (sscanf(line, "var %2047s %lf", name, &v) == 2) vars[name] = v;
  }
  fclose(i);
  return 1;
}
uint64_t sym_choose(const char* name, size_t len, uint64_t n) {
  if (choices.empty()) { fprintf(stderr, "replay: no choice left for %.*s\n", (int)len, name); return 0; }
  long c = choices.front(); choices.pop_front();
  return (uint64_t)c < n ? c : n - 1;
}
double sym_f64(const char* name, size_t len, int64_t lo, int64_t hi, uint32_t shift) {
  auto it = vars.find(string(name, len));
  if (it != vars.end()) return it->second;
  int64_t k = lo <= 0 && hi >= 0 ? 0 : lo;
  return std::ldexp((double)k, -(int)shift);
}
void sym_magic(double, double) {}
double sym_resolve(double v) { return v; }
int sym_is_sym(double) { return 0; }
static void fail(const char* m, size_t n, const string& extra) {
  if (!failed) firstFail = string(m, n) + extra;
  failed = true;
}
void sym_check(bool ok, const char* m, size_t n) { if (!ok) fail(m, n, ""); }
static string show(double a, double b) { char t[100]; snprintf(t, sizeof t, " (%.12g vs %.12g)", a, b); return t; }
void sym_check_eq(double a, double b, const char* m, size_t n) {
  if (std::isnan(a) && std::isnan(b)) return;
  if (a == b) return;
  double tol = 2e-7 + 1e-10 * std::fmax(fabs(a), fabs(b));
  if (!(fabs(a - b) <= tol)) fail(m, n, show(a, b));
}
void sym_check_le(double a, double b, const char* m, size_t n) {
  double tol = 2e-7 + 1e-10 * std::fmax(fabs(a), fabs(b));
  if (!(a <= b + tol)) fail(m, n, show(a, b));
}
void sym_cover(const char*, size_t) {}
int sym_assume(double a, double b, int strict) { return strict ? a < b : a <= b; }
int nat_failed() { return failed; }
void nat_report(const char* file, size_t n, int status, const char* msg, size_t len) {
  alarm(0);
  // one line per replay: file \t OK|STOP|FAIL \t message
  string m = failed ? firstFail : status == 2 ? "panic: " + string(msg, len) : "";
  for (auto& c : m) if (c == '\n' || c == '\t') c = ' ';
  printf("REPLAY\t%.*s\t%s\t%s\n", (int)n, file, failed || status == 2 ? "FAIL" : status == 1 ? "STOP" : "OK", m.c_str());
  fflush(stdout);
}
// stubs so that one harness object links with either runtime
void sym_init(const char*, size_t, const char*, size_t, double, uint64_t, uint64_t, int, uint64_t, double) {}
void sym_begin_path() {}
int sym_end_path(int, const char*, size_t) { return 0; }
void sym_finish() {}
}
