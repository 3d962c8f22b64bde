#include "solver.hpp"
Z3_sort bvSort(unsigned w) { if (w == 1) return Z3_mk_bool_sort(C); static std::map<unsigned, Z3_sort> m; auto& s = m[w]; if (!s) { s = Z3_mk_bv_sort(C, w); Z3_inc_ref(C, Z3_sort_to_ast(C, s)); } return s; }
Z3_sort fpSort(unsigned w) { static Z3_sort a, b; if (!a) { a = Z3_mk_fpa_sort_32(C); Z3_inc_ref(C, Z3_sort_to_ast(C, a)); b = Z3_mk_fpa_sort_64(C); Z3_inc_ref(C, Z3_sort_to_ast(C, b)); } return w == 32 ? a : b; }
Val vint(unsigned w, u128 c) { Val v; v.k = VK::Int; v.w = w; v.c = c & maskw(w); return v; }
Val vsym(unsigned w, Z3_ast s) {
  if (w == 1) { auto b = Z3_get_bool_value(C, s); if (b == Z3_L_TRUE) return vint(1, 1); if (b == Z3_L_FALSE) return vint(1, 0); }
  else if (Z3_get_ast_kind(C, s) == Z3_NUMERAL_AST) {
    mpz_class z(Z3_get_numeral_string(C, s)); u128 c = 0;
    mpz_class lo = z & mpz_class("18446744073709551615"), hi = z >> 64;
    c = ((u128)hi.get_ui() << 64) | lo.get_ui();
    return vint(w, c);
  }
  Val v; v.k = VK::Int; v.w = w; v.s = s; return v;
}
std::string u128s(u128 v) { if (!v) return "0"; std::string s; while (v) { s += char('0' + (int)(v % 10)); v /= 10; } std::reverse(s.begin(), s.end()); return s; }
double mpq2d(const mpq_class& q) {
  // correctly-rounded enough: use mpf with 200 bits then nearest
  if (q == 0) return 0;
  mpf_class f(0, 256); f = mpf_class(q.get_num(), 256) / mpf_class(q.get_den(), 256);
  char* s; mp_exp_t e; s = mpf_get_str(nullptr, &e, 10, 40, f.get_mpf_t());
  std::string t(s); free(s); bool neg = t[0] == '-'; if (neg) t = t.substr(1);
  std::string n = (neg ? "-0." : "0.") + t + "e" + std::to_string((long)e);
  return strtod(n.c_str(), nullptr);
}
static mpq_class decq(const std::string& s0) {
  std::string s = s0; bool neg = s[0] == '-'; if (neg) s = s.substr(1);
  long e = 0; auto p = s.find('e'); if (p != std::string::npos) { e = atol(s.c_str() + p + 1); s = s.substr(0, p); }
  auto d = s.find('.'); if (d != std::string::npos) { e -= (long)(s.size() - d - 1); s.erase(d, 1); }
  mpz_class n(s, 10), t; mpz_ui_pow_ui(t.get_mpz_t(), 10, e < 0 ? -e : e);
  mpq_class q = e < 0 ? mpq_class(n, t) : mpq_class(n * t); q.canonicalize(); return neg ? mpq_class(-q) : q;
}
mpq_class shortest(double d, unsigned w) {
  static std::map<std::pair<double, unsigned>, mpq_class> memo;
  auto k = std::make_pair(d, w); auto it = memo.find(k); if (it != memo.end()) return it->second;
  mpq_class res; bool found = false;
  char buf[64];
  for (int p = 1; p <= (w == 32 ? 9 : 17); p++) {
    snprintf(buf, sizeof buf, "%.*e", p - 1, d);
    bool eq = w == 32 ? strtof(buf, nullptr) == (float)d : strtod(buf, nullptr) == d;
    if (eq) { if (p <= (w == 32 ? 7 : 12)) { res = decq(buf); found = true; } break; }
  }
  if (!found) {   // small fraction p/q ?
    double x = std::fabs(d), y = x; long h0 = 0, h1 = 1, k0 = 1, k1 = 0;
    for (int i = 0; i < 20 && x < 1e6; i++) {
      double fa = std::floor(y); if (fa > 1e6) break; long a = (long)fa;
      long h2 = a * h1 + h0, k2 = a * k1 + k0; if (k2 > 2000) break;
      h0 = h1; h1 = h2; k0 = k1; k1 = k2;
      double r = (double)h1 / (double)k1; bool eq = w == 32 ? (float)r == (float)std::fabs(d) : r == std::fabs(d);
      if (eq) { res = mpq_class(h1, k1); if (d < 0) res = -res; res.canonicalize(); found = true; break; }
      if (y - fa < 1e-13) break; y = 1 / (y - fa);
    }
  }
  if (!found) { for (int p = 1; p <= 17; p++) { snprintf(buf, sizeof buf, "%.*e", p - 1, d); if (w == 32 ? strtof(buf, nullptr) == (float)d : strtod(buf, nullptr) == d) break; } res = decq(buf); }
  return memo[k] = res;
}
Val vfpsp(unsigned w, SP sp) { Val v; v.k = VK::FP; v.w = w; v.sp = sp; if (!REAL) v.d = sp == NaN_ ? NAN : sp == PINF ? INFINITY : -INFINITY; return v; }
Val vfpq(unsigned w, const mpq_class& q) {
  Val v; v.k = VK::FP; v.w = w;
  if (mpz_sizeinbase(q.get_num().get_mpz_t(), 2) + mpz_sizeinbase(q.get_den().get_mpz_t(), 2) > 4000) { double d = mpq2d(q); if (std::isfinite(d)) { v.q = std::make_shared<const mpq_class>(shortest(d, 64)); return v; } }
  v.q = std::make_shared<const mpq_class>(q); return v;
}
Val vfp(unsigned w, double d) {
  if (REAL) {
    if (std::isnan(d)) return vfpsp(w, NaN_);
    if (std::isinf(d)) return vfpsp(w, d > 0 ? PINF : NINF);
    return vfpq(w, shortest(d, w));
  }
  Val v; v.k = VK::FP; v.w = w; v.d = w == 32 ? (double)(float)d : d; return v;
}
static Z3_sort realSort() { static Z3_sort s; if (!s) { s = Z3_mk_real_sort(C); Z3_inc_ref(C, Z3_sort_to_ast(C, s)); } return s; }
Val vfps(unsigned w, Z3_ast s) {
  if (REAL && Z3_get_ast_kind(C, s) == Z3_NUMERAL_AST) { mpq_class q(Z3_get_numeral_string(C, s)); q.canonicalize(); return vfpq(w, q); }
  Val v; v.k = VK::FP; v.w = w; v.s = s; return v;
}
Z3_ast astOf(const Val& v) {
  if (v.s) return v.s;
  if (v.w == 1) return hold(v.c ? Z3_mk_true(C) : Z3_mk_false(C));
  return hold(Z3_mk_numeral(C, u128s(v.c).c_str(), bvSort(v.w)));
}
Z3_ast realOf(const Val& v) {
  if (v.s) return v.s;
  return hold(Z3_mk_numeral(C, v.q->get_str().c_str(), realSort()));
}
Z3_ast fpOf(const Val& v) {
  if (v.s) return v.s;
  if (v.w == 32) return hold(Z3_mk_fpa_numeral_float(C, (float)v.d, fpSort(32)));
  return hold(Z3_mk_fpa_numeral_double(C, v.d, fpSort(64)));
}
Z3_ast freshVar(const char* p, Z3_sort s) {
  static std::map<std::string, int> n; std::string nm = std::string(p) + "!" + std::to_string(n[p]++);
  return hold(Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), s));
}
