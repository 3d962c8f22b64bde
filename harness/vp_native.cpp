// Native replay runtime: executes a harness entry against the real code with the inputs of a
// counterexample / witness file.  exit 0: all checks held; 42: a check failed; 77: an assumption failed.
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <fstream>
#include <sstream>
#include <exception>
#include <dlfcn.h>
#include <unistd.h>
static std::map<std::string, std::string> vals; static std::map<std::string, int> occ; static int fails = 0; static std::map<std::string, int> failed;
static std::string key(const char* n) { std::string s = n; return s + "#" + std::to_string(occ[s]++); }
static double fval(const char* n) { auto it = vals.find(key(n)); return it == vals.end() ? 0.37 : strtod(it->second.c_str(), nullptr); }
static uint64_t ival(const char* n) { auto it = vals.find(key(n)); return it == vals.end() ? 0 : strtoull(it->second.c_str(), nullptr, 10); }
static void done() { if (fails) { for (auto& f : failed) printf("CHECKFAIL %s\n", f.first.c_str()); fflush(stdout); _exit(42); } }
static void fail(const char* l) { ++fails; failed[l]++; if (fails > 50) done(); }
extern "C" {
double vp_real(const char* n) { return fval(n); }
float vp_realf(const char* n) { return (float)fval(n); }
double vp_real_in(const char* n, double, double) { return fval(n); }
float vp_realf_in(const char* n, float, float) { return (float)fval(n); }
double vp_real_any(const char* n) { return fval(n); }
float vp_realf_any(const char* n) { return (float)fval(n); }
uint64_t vp_bits(const char* n, int w) { uint64_t v = ival(n); return w >= 64 ? v : v & ((1ull << w) - 1); }
bool vp_bool(const char* n) { return ival(n) & 1; }
void vp_bytes(void* p, uint64_t n, const char* name) { for (uint64_t i = 0; i < n; ++i) { std::string m = std::string(name) + "[" + std::to_string(i) + "]"; ((unsigned char*)p)[i] = (unsigned char)ival(m.c_str()); } }
uint32_t vp_choice(const char* n, uint32_t m) { uint32_t v = (uint32_t)ival(n); return m ? v % m : 0; }
void vp_assume(bool c) { if (!c) { done(); printf("ASSUMEFAIL\n"); fflush(stdout); _exit(77); } }
void vp_assume_exact(bool) {}
void vp_check(bool c, const char* l) { if (!c) fail(l); }
void vp_check_close(double a, double b, double tol, const char* l) { if (std::isinf(a) && std::isinf(b) && (a > 0) == (b > 0)) return; if (!(std::fabs(a - b) <= tol * (1 + std::fabs(b)))) { printf("DIFF %s: got %.17g expected %.17g\n", l, a, b); fail(l); } }
void vp_cover(const char* l) { printf("COVER %s\n", l); }
bool vp_fork(bool c) { return c; }
bool vp_symbolic() { return false; }
uint64_t vp_concretize(uint64_t v) { return v; }
void vp_hint(double) {}
void vp_print(const char* l, double v) { printf("PRINT %s %.17g\n", l, v); }
void vp_printi(const char* l, uint64_t v) { printf("PRINTI %s %llu\n", l, (unsigned long long)v); }
}
int main(int argc, char** argv) {
  if (argc < 2) { fprintf(stderr, "usage: %s ENTRY [INPUTS]\n", argv[0]); return 2; }
  if (argc > 2) { std::ifstream f(argv[2]); std::string line; while (std::getline(f, line)) { if (line.empty() || line[0] == '#') continue; size_t i = line.find(' '), j = line.rfind(' '); if (i == std::string::npos || j <= i) continue; std::string n = line.substr(i + 1, j - i - 1), v = line.substr(j + 1); vals[n] = v; } }
  void* h = dlopen(nullptr, RTLD_NOW); auto fn = (void (*)())dlsym(h, argv[1]); if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  try { fn(); } catch (std::exception& e) { printf("UNCAUGHT %s\n", e.what()); fail("no-uncaught-exception"); } catch (...) { fail("no-uncaught-exception"); }
  done(); printf("OK\n"); fflush(stdout); _exit(0);
}
