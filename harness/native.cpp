// Native runtime of the harness API: replays one concrete assignment against the real code.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <fstream>
#include <sstream>
#include <exception>
#include <iostream>
#include <unistd.h>
static std::map<std::string, void(*)()>& reg() { static std::map<std::string, void(*)()> r; return r; }
void sym_register(const char* n, void (*f)()) { reg()[n] = f; }
static std::map<std::string, std::string> in;
static std::map<std::string, int> cnt;
static int fails = 0, reaches = 0;
static std::string key(const char* n) { int k = cnt[n]++; if(!k) return n; char b[32]; sprintf(b, "#%d", k); return std::string(n) + b; }
static bool get(const std::string& k, double& v) { auto i = in.find(k); if(i == in.end()) return false; v = strtod(i->second.c_str(), 0); return true; }
static bool exact() { return in.count("__exact"); }
extern "C" {
double sym_double(const char* n) { double v; return get(key(n), v) ? v : 0.25; }
double sym_range(const char* n, double lo, double hi) { double v; if(!get(key(n), v)) v = 0.5 * (lo + hi); if(!(v >= lo)) v = lo; if(v > hi) v = hi; return v; }
long sym_int(const char* n, long lo, long hi) { auto i = in.find(key(n)); long v = i == in.end() ? lo : strtol(i->second.c_str(), 0, 10); return v < lo ? lo : v > hi ? hi : v; }
char sym_byte(const char* n) { auto i = in.find(key(n)); return i == in.end() ? 'a' : (char)strtol(i->second.c_str(), 0, 10); }
long sym_choice(const char* n, long k) { return sym_int(n, 0, k - 1); }
void sym_assume(bool c) { if(!c) { if(fails) { fflush(stdout); _exit(1); } printf("ASSUME-FALSE\n"); fflush(stdout); _exit(3); } }
void sym_check(bool c, const char* l) { if(!c) { printf("REPLAY-FAIL %s\n", l); ++fails; } }
static void fail2(double a, double b, const char* l) { printf("REPLAY-FAIL %s: %.17g vs %.17g\n", l, a, b); ++fails; }
void sym_check_eq(double a, double b, const char* l) {
  if(a == b || (a != a && b != b)) return;
  if(exact()) { fail2(a, b, l); return; }
  double m = std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b)));
  if(!(std::fabs(a - b) <= 2e-5 * m)) fail2(a, b, l);
}
void sym_check_printed(double a, double b, int p, const char* l) { if(!(std::fabs(a - b) <= 6.0 * std::fabs(b) * std::pow(10.0, -p) + 2e-5 * 1e-3 && a == a) && !(a != a && b != b)) fail2(a, b, l); }
void sym_check_same(double a, double b, const char* l) { if(std::memcmp(&a, &b, 8) && !(a != a && b != b)) { if(exact()) fail2(a, b, l); else sym_check_eq(a, b, l); } }
void sym_check_angle(double a, double b, const char* l) {
  if(!(std::fabs(std::sin(a) - std::sin(b)) <= 2e-5) || !(std::fabs(std::cos(a) - std::cos(b)) <= 2e-5)) fail2(a, b, l);
}
void sym_check_finite(double a, const char* l) { if(!std::isfinite(a)) { printf("REPLAY-FAIL %s: %g\n", l, a); ++fails; } }
double sym_diff(double, double) { return 0; }
void sym_reach(const char* l) { printf("REACHED %s\n", l); ++reaches; }
char* sym_lazy_array(const char* n, long first, long bytes) {
  // the contents of the model are not reproduced: pseudo-random values that differ everywhere
  char* p = (char*)calloc(bytes, 1); long m = (bytes - first) / 8;
  unsigned long s = 12345;
  for(long i = 0; i < m; ++i) { s = s * 6364136223846793005ul + 1442695040888963407ul; double v = (double)(s >> 11) / 9007199254740992.0 * 1.25 - 0.25; memcpy(p + first + 8 * i, &v, 8); }
  return p;
}
void sym_out(const char* n, double v) { printf("OUT %s %.17g\n", n, v); }
int sym_is_symbolic() { return 0; }
int sym_is_undef(double) { return 0; }
double sym_round(double v, int d) { char b[64]; sprintf(b, "%.*g", d, v); return strtod(b, 0); }
void sym_file_put(const char* name, const char* data, long n) { FILE* f = fopen(name, "wb"); fwrite(data, 1, n, f); fclose(f); }
}
int main(int argc, char** argv) {
  setvbuf(stdout, 0, _IOLBF, 0);
  std::ifstream f(argv[2]); std::string line;
  while(std::getline(f, line)) {
    if(line.empty() || line[0] == '#') continue;
    size_t e = line.rfind(' '); if(e == std::string::npos) continue;
    in[line.substr(0, e)] = line.substr(e + 1);
  }
  auto i = reg().find(argv[1]);
  if(i == reg().end()) { printf("NO-HARNESS\n"); return 4; }
  try { i->second(); }
  catch(std::exception& e) { printf("REPLAY-FAIL uncaught exception: %s\n", e.what()); return 1; }
  catch(...) { printf("REPLAY-FAIL uncaught exception\n"); return 1; }
  if(fails) return 1;
  printf("REPLAY-OK reached=%d\n", reaches);
  return 0;
}
