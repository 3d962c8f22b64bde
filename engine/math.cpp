#include "exec.hpp"
#define ENSURE(c, m) do { if (!(c)) throw Unsupported{m}; } while (0)
static Z3_sort RS() { static Z3_sort s; if (!s) { s = Z3_mk_real_sort(C); Z3_inc_ref(C, Z3_sort_to_ast(C, s)); } return s; }
static Z3_ast num(const mpq_class& q) { return hold(Z3_mk_numeral(C, q.get_str().c_str(), RS())); }
static Z3_ast num(long n) { return num(mpq_class(n)); }
static Z3_ast numd(double d) { return num(shortest(d, 64)); }
static Z3_ast And(std::vector<Z3_ast> v) { return hold(Z3_mk_and(C, v.size(), v.data())); }
static Z3_ast Or(std::vector<Z3_ast> v) { return hold(Z3_mk_or(C, v.size(), v.data())); }
static Z3_ast Imp(Z3_ast a, Z3_ast b) { return hold(Z3_mk_implies(C, a, b)); }
static Z3_ast Mul(Z3_ast a, Z3_ast b) { Z3_ast v[2] = {a, b}; return hold(Z3_mk_mul(C, 2, v)); }
static Z3_ast Add(Z3_ast a, Z3_ast b) { Z3_ast v[2] = {a, b}; return hold(Z3_mk_add(C, 2, v)); }
static Z3_ast Sub(Z3_ast a, Z3_ast b) { Z3_ast v[2] = {a, b}; return hold(Z3_mk_sub(C, 2, v)); }
static Z3_ast Eq(Z3_ast a, Z3_ast b) { return hold(Z3_mk_eq(C, a, b)); }
static Z3_ast Lt(Z3_ast a, Z3_ast b) { return hold(Z3_mk_lt(C, a, b)); }
static Z3_ast Le(Z3_ast a, Z3_ast b) { return hold(Z3_mk_le(C, a, b)); }
#define FIN_(v) (!((v).conc() && (v).sp != FIN))

Val Exec::rsqrt_(State& S, const Val& a) {   // sqrt, real mode
  unsigned w = a.w;
  if (a.conc()) {
    if (a.sp == NaN_ || a.sp == NINF) return vfpsp(w, NaN_); if (a.sp == PINF) return a;
    if (*a.q < 0) return vfpsp(w, NaN_); if (OPT["slice"]) return vfp(w, std::sqrt(mpq2d(*a.q)));
    mpz_class n = a.q->get_num(), d = a.q->get_den(), sn = sqrt(n), sd = sqrt(d);
    if (sn * sn == n && sd * sd == d) { mpq_class r(sn, sd); r.canonicalize(); return vfpq(w, r); }
    if (OPT["sqrtq"]) { mpz_class N = n * d; N <<= 512; mpz_class s = sqrt(N); mpq_class r(s, mpz_class(d) << 256); r.canonicalize(); return vfpq(w, r); }   // rational approximation, 2^-256 relative
  } else {
    Z3_ast root; if (polySqrt(S, a.s, &root)) { bool pos = decide(S, Le(num(0), root)); return S.markNN(vfps(w, pos ? root : polyNorm(S, hold(Z3_mk_unary_minus(C, root)))), true); }
    if (!S.isNN(a) && decide(S, Lt(a.s, num(0)))) return vfpsp(w, NaN_);
  }
  Z3_ast x = simp(realOf(a));
  static std::unordered_map<Z3_ast, Z3_ast> memo;
  auto& s = memo[x];
  if (!s) {
    s = freshVar("sqrt", RS());
    if (OPT["sqrtx"] == 0) addAxiom(s, Or({Lt(x, num(0)), And({Eq(Mul(s, s), x), Le(num(0), s)})}));
  }
  S.pendEq.push_back(Eq(Mul(s, s), x));
  { Iv i = ivSqrt(S.ivOf(a)); S.ivSet(s, i); }
  return vfps(w, s);
}
// ---- trigonometry: angle terms decomposed into integer multiples of base terms
static void lin(Z3_ast e, const mpq_class& k, std::map<Z3_ast, mpq_class>& m, mpq_class& c) {
  if (Z3_get_ast_kind(C, e) == Z3_NUMERAL_AST) { mpq_class q(Z3_get_numeral_string(C, e)); q.canonicalize(); c += k * q; return; }
  if (Z3_get_ast_kind(C, e) == Z3_APP_AST) {
    Z3_app a = Z3_to_app(C, e); unsigned n = Z3_get_app_num_args(C, a);
    switch (Z3_get_decl_kind(C, Z3_get_app_decl(C, a))) {
      case Z3_OP_ADD: for (unsigned i = 0; i < n; i++) lin(Z3_get_app_arg(C, a, i), k, m, c); return;
      case Z3_OP_SUB: for (unsigned i = 0; i < n; i++) lin(Z3_get_app_arg(C, a, i), i ? -k : k, m, c); return;
      case Z3_OP_UMINUS: lin(Z3_get_app_arg(C, a, 0), -k, m, c); return;
      case Z3_OP_MUL: {
        mpq_class kk = k; std::vector<Z3_ast> rest;
        for (unsigned i = 0; i < n; i++) { Z3_ast x = Z3_get_app_arg(C, a, i); if (Z3_get_ast_kind(C, x) == Z3_NUMERAL_AST) { mpq_class q(Z3_get_numeral_string(C, x)); q.canonicalize(); kk *= q; } else rest.push_back(x); }
        if (rest.size() == 1) { lin(rest[0], kk, m, c); return; }
        if (rest.empty()) { c += kk; return; }
        Z3_ast r = simp(Z3_mk_mul(C, rest.size(), rest.data())); m[r] += kk; return; }
      default: break;
    }
  }
  m[e] += k;
}
struct SC { Val s, c; };
static std::unordered_map<Z3_ast, SC> TRIG;   // base angle -> (sin, cos)
static std::unordered_map<Z3_ast, bool> ACOSV;   // angles in [0,pi]
static const double PI_ = 3.14159265358979323846;
void Exec::trig(State& S, const Val& a, Val& s, Val& c) {
  unsigned w = a.w;
  if (a.conc()) {
    if (a.sp != FIN) { s = c = vfpsp(w, NaN_); return; }
    double d = mpq2d(*a.q); double h = d / (PI_ / 2), r = std::round(h);
    if (std::fabs(h - r) < 1e-9 * (1 + std::fabs(r)) && std::fabs(r) < 1000) { long k = ((long)r % 4 + 4) % 4; int sv[] = {0, 1, 0, -1}, cv[] = {1, 0, -1, 0}; s = vfpq(w, sv[k]); c = vfpq(w, cv[k]); return; }
    s = vfp(w, std::sin(d)); c = vfp(w, std::cos(d)); return;
  }
  std::map<Z3_ast, mpq_class> m; mpq_class k = 0; if (getenv("VPSE_TRIG")) fprintf(stderr, "TRIG %s\n", Z3_ast_to_string(C, a.s)); lin(simp(a.s), 1, m, k); if (getenv("VPSE_TRIG")) for (auto& kv : m) fprintf(stderr, "  base %s * %s\n", kv.second.get_str().c_str(), Z3_ast_to_string(C, kv.first));
  Val cs = vfpq(w, 0), cc = vfpq(w, 1);
  { double d = mpq2d(k); if (k != 0) { Val kv = vfpq(w, k); (void)d; trig(S, kv, cs, cc); } }
  long D = OPT["trigdiv"]; if (D < 1) D = 1;
  auto mulv = [&](const Val& x, const Val& y) { return fpBin(S, Instruction::FMul, x, y); };
  auto addv = [&](const Val& x, const Val& y) { return fpBin(S, Instruction::FAdd, x, y); };
  auto subv = [&](const Val& x, const Val& y) { return fpBin(S, Instruction::FSub, x, y); };
  auto comb = [&](Val& s1, Val& c1, const Val& s2, const Val& c2) { Val ns = addv(mulv(s1, c2), mulv(c1, s2)), nc = subv(mulv(c1, c2), mulv(s1, s2)); s1 = ns; c1 = nc; };
  for (auto& kv : m) {
    if (kv.second == 0) continue;
    Z3_ast t = kv.first; mpq_class co = kv.second; long DD = TRIG.count(t) ? 1 : D;
    mpq_class cd = co * DD; long mult = 1; bool negd = false;
    if (cd.get_den() == 1 && abs(cd.get_num()) <= 8) { mult = cd.get_num().get_si(); if (mult < 0) { negd = true; mult = -mult; } }
    else if (ACOSV.count(t) && mpq_class(co * 2).get_den() == 1 && abs(co) <= 4) {   // half of an angle in [0,pi]
      mult = mpz_class(mpq_class(co * 2).get_num()).get_si(); if (mult < 0) { negd = true; mult = -mult; } Z3_ast h = simp(Mul(num(mpq_class(1, 2)), t)); Val cv = TRIG[t].c; cv.w = w;
      if (!TRIG.count(h)) { Val half = vfpq(w, mpq_class(1, 2)), one = vfpq(w, 1); Val hs = rsqrt_(S, mulv(half, subv(one, cv))), hc = rsqrt_(S, mulv(half, addv(one, cv))); TRIG.emplace(h, SC{hs, hc}); }
      t = h; }
    else { negd = co < 0; mpq_class ac = abs(co); t = simp(Mul(num(ac), t)); mult = 1; DD = 1; if (TRIG.count(t) == 0 && false) {} }
    auto it = TRIG.find(t);
    if (it == TRIG.end() && Z3_get_ast_kind(C, t) == Z3_APP_AST && Z3_get_app_num_args(C, Z3_to_app(C, t)) > 0) {   // an angle equal to a known one on this path
      for (auto j = TRIG.begin(); j != TRIG.end(); ++j) { mpq_class q; if (j->second.s.s && polyDiff(S, t, j->first, q, nullptr) && q == 0) { it = j; break; } if (j->second.s.s && polyDiff(S, Mul(num(-1), t), j->first, q, nullptr) && q == 0) { it = j; negd = !negd; break; } }
    }
    if (it == TRIG.end()) {
      Z3_ast sv = freshVar("sin", RS()), cv = freshVar("cos", RS());
      Z3_ast ax = Eq(Add(Mul(sv, sv), Mul(cv, cv)), num(1)); addAxiom(sv, ax); addAxiom(cv, ax);
      Z3_ast bd = And({Le(num(-1), sv), Le(sv, num(1)), Le(num(-1), cv), Le(cv, num(1))}); addAxiom(sv, bd); addAxiom(cv, bd);
      if (OPT["trigax"]) {
        Z3_ast x = DD == 1 ? t : simp(Mul(num(mpq_class(1, DD)), t)); Z3_ast pi = numd(PI_), hp = numd(PI_ / 2), np = numd(-PI_), nh = numd(-PI_ / 2);
        std::vector<Z3_ast> axs = { Imp(And({Lt(num(0), x), Lt(x, pi)}), Lt(num(0), sv)), Imp(And({Lt(np, x), Lt(x, num(0))}), Lt(sv, num(0))),
          Imp(And({Lt(nh, x), Lt(x, hp)}), Lt(num(0), cv)), Imp(Or({And({Lt(hp, x), Le(x, pi)}), And({Le(np, x), Lt(x, nh)})}), Lt(cv, num(0))), Imp(Eq(x, num(0)), And({Eq(sv, num(0)), Eq(cv, num(1))})),
          Imp(Eq(x, hp), And({Eq(sv, num(1)), Eq(cv, num(0))})), Imp(Eq(x, nh), And({Eq(sv, num(-1)), Eq(cv, num(0))})), Imp(Or({Eq(x, pi), Eq(x, np)}), And({Eq(sv, num(0)), Eq(cv, num(-1))})),
          Imp(Le(num(0), x), Le(sv, x)), Imp(Le(x, num(0)), Le(x, sv)) };
        for (auto q : axs) { addAxiom(sv, q); addAxiom(cv, q); }
      }
      it = TRIG.emplace(t, SC{vfps(w, sv), vfps(w, cv)}).first;
    }
    Val bs = it->second.s, bc = it->second.c; bs.w = bc.w = w;
    if (bs.s && bc.s) S.pendEq.push_back(Eq(Add(Mul(bs.s, bs.s), Mul(bc.s, bc.s)), num(1)));
    Val rs = bs, rc = bc; for (long i = 1; i < mult; i++) comb(rs, rc, bs, bc);
    if (negd) rs = fneg(rs);
    comb(cs, cc, rs, rc);
  }
  s = cs; c = cc;
}
// make the angles of a model agree with its sine/cosine values (the two are only loosely linked in the encoding)
bool trigFix(Assign& a) {
  bool any = false; long D = OPT["trigdiv"]; if (D < 1) D = 1;
  auto dv = [&](Z3_ast v, double& d) { auto it = a.find(v); if (it == a.end()) return false; d = strtod(valueStr(it->second).c_str(), nullptr); return true; };
  for (auto& kv : TRIG) {
    Z3_ast t = kv.first; const Val &s = kv.second.s, &c = kv.second.c; if (!s.s || !c.s) continue;
    double sv, cv; if (!dv(s.s, sv) || !dv(c.s, cv)) continue;
    double k = 1; Z3_ast var = t;
    if (Z3_get_ast_kind(C, t) == Z3_APP_AST) { Z3_app ap = Z3_to_app(C, t); if (Z3_get_app_num_args(C, ap) == 2 && Z3_get_decl_kind(C, Z3_get_app_decl(C, ap)) == Z3_OP_MUL && Z3_get_ast_kind(C, Z3_get_app_arg(C, ap, 0)) == Z3_NUMERAL_AST) { k = mpq2d(mpq_class(Z3_get_numeral_string(C, Z3_get_app_arg(C, ap, 0)))); var = Z3_get_app_arg(C, ap, 1); } }
    double old; if (!dv(var, old) || k == 0) continue;
    double base = D * std::atan2(sv, cv) / k, per = D * 2 * PI_ / std::fabs(k); double nv = base + per * std::round((old - base) / per);
    for (double cand : {nv, base}) { mpq_class q(cand); a[var] = hold(Z3_mk_numeral(C, q.get_str().c_str(), RS())); any = true; if (cand == nv) break; }
  }
  return any;
}
static std::unordered_map<Z3_ast, Z3_ast> EXPOF, LOGOF;  // exp var -> arg ; log var -> arg
static std::map<std::string, std::vector<std::pair<Z3_ast, Z3_ast>>> MONO; // monotone UFs: fn -> (arg,var)
static Z3_ast domOf(const std::string& fn, Z3_ast x) {
  if (fn == "acos" || fn == "asin") return And({Le(num(-1), x), Le(x, num(1))});
  if (fn.compare(0, 3, "log") == 0 || fn.compare(0, 3, "pow") == 0) return Lt(num(0), x);
  return nullptr;
}
static void mono(const std::string& fn, Z3_ast x, Z3_ast y, bool inc) {
  auto& l = MONO[fn]; if (l.size() > 12) return;
  for (auto& p : l) {
    std::vector<Z3_ast> ax;
    if (inc) ax = {hold(Z3_mk_iff(C, Lt(x, p.first), Lt(y, p.second))), hold(Z3_mk_iff(C, Eq(x, p.first), Eq(y, p.second)))};
    else ax = {hold(Z3_mk_iff(C, Lt(x, p.first), Lt(p.second, y))), hold(Z3_mk_iff(C, Eq(x, p.first), Eq(y, p.second)))};
    if (domOf(fn, x) && fn.compare(0, 4, "powe") != 0) { Z3_ast g = And({domOf(fn, x), domOf(fn, p.first)}); for (auto& a : ax) a = Imp(g, a); }
    for (auto a : ax) { addAxiom(y, a); if (OPT["mono"] > 1) addAxiom(p.second, a); }
  }
  l.push_back({x, y});
}
static void congr(const std::string& fn, Z3_ast x, Z3_ast y) {   // functional congruence for uninterpreted unary functions
  auto& l = MONO["c:" + fn]; if (l.size() > 8) return;
  for (auto& p : l) addAxiom(y, Imp(Eq(x, p.first), Eq(y, p.second)));
  l.push_back({x, y});
}
Val Exec::fpUF(State& S, const std::string& fn, unsigned w, const std::vector<Val>& a) {
  static std::map<std::pair<std::string, std::vector<Z3_ast>>, Z3_ast> memo;
  std::vector<Z3_ast> k; for (auto& v : a) k.push_back(fpOf(v));
  auto& r = memo[{fn + (w == 32 ? "f" : ""), k}];
  if (!r) {
    r = freshVar(fn.c_str(), fpSort(w)); Z3_ast x = k[0];
    auto lit = [&](double d) { return fpOf(vfp(w, d)); };
    Z3_ast nan = Z3_mk_fpa_is_nan(C, x), inf = Z3_mk_fpa_is_infinite(C, x), rn = Z3_mk_fpa_is_nan(C, r);
    auto ge = [&](Z3_ast p, Z3_ast q) { return hold(Z3_mk_fpa_geq(C, p, q)); };
    if (fn == "sin" || fn == "cos") { addAxiom(r, hold(Z3_mk_ite(C, Or({nan, inf}), rn, And({ge(r, lit(-1)), ge(lit(1), r)})))); }
    else if (fn == "exp") addAxiom(r, hold(Z3_mk_ite(C, nan, rn, ge(r, lit(0)))));
    else if (fn == "atan" || fn == "asin") { Z3_ast bad = fn == "asin" ? Or({nan, Z3_mk_fpa_gt(C, x, lit(1)), Z3_mk_fpa_lt(C, x, lit(-1))}) : nan; addAxiom(r, hold(Z3_mk_ite(C, bad, rn, And({ge(r, lit(-PI_ / 2)), ge(lit(PI_ / 2), r)})))); }
    else if (fn == "acos") addAxiom(r, hold(Z3_mk_ite(C, Or({nan, Z3_mk_fpa_gt(C, x, lit(1)), Z3_mk_fpa_lt(C, x, lit(-1))}), rn, And({ge(r, lit(0)), ge(lit(PI_), r)}))));
    else if (fn == "log" || fn == "log2" || fn == "log10") { addAxiom(r, hold(Z3_mk_iff(C, Or({nan, Z3_mk_fpa_lt(C, x, lit(0))}), rn)));
      addAxiom(r, Imp(Z3_mk_fpa_gt(C, x, lit(0)), Imp(mkNot(inf), hold(Z3_mk_not(C, Z3_mk_fpa_is_infinite(C, r))))));
      addAxiom(r, Imp(Z3_mk_fpa_is_zero(C, x), And({Z3_mk_fpa_is_infinite(C, r), Z3_mk_fpa_is_negative(C, r)})));
      addAxiom(r, Imp(And({Z3_mk_fpa_gt(C, x, lit(0)), ge(lit(1), x)}), ge(lit(0), r))); addAxiom(r, Imp(ge(x, lit(1)), ge(r, lit(0)))); }
    else if (fn == "pow") { Z3_ast ok = And({ge(x, lit(0)), mkNot(inf), ge(k[1], lit(0)), hold(Z3_mk_not(C, Z3_mk_fpa_is_infinite(C, k[1])))}); addAxiom(r, Imp(ok, ge(r, lit(0)))); addAxiom(r, Imp(And({ok, ge(lit(1), x)}), ge(lit(1), r))); addAxiom(r, Imp(And({ok, ge(x, lit(1))}), ge(r, lit(1)))); addAxiom(r, Imp(And({ok, ge(lit(1), x), ge(k[1], lit(1))}), ge(x, r))); }
  }
  return vfps(w, r);
}
static double libm(const std::string& f, double x, double y) {
#define U(n) if (f == #n) return std::n(x);
  U(sin) U(cos) U(tan) U(asin) U(acos) U(atan) U(exp) U(exp2) U(expm1) U(log) U(log2) U(log10) U(log1p) U(cbrt) U(sinh) U(cosh) U(tanh) U(asinh) U(acosh) U(atanh) U(tgamma) U(lgamma) U(erf) U(erfc) U(sqrt) U(floor) U(ceil) U(trunc) U(round) U(rint) U(nearbyint) U(fabs)
  if (f == "j0") return j0(x); if (f == "j1") return j1(x);
  if (f == "atan2") return std::atan2(x, y); if (f == "pow") return std::pow(x, y); if (f == "fmod") return std::fmod(x, y); if (f == "hypot") return std::hypot(x, y);
  throw Unsupported{"libm " + f};
}
Val Exec::math(State& S, const std::string& fn, unsigned w, std::vector<Val>& a) {
  for (auto& x : a) if (x.k == VK::Undef) x = vfps(w, freshVar("undeff", REAL ? RS() : fpSort(w)));
  if (!REAL) {
    bool c = true; for (auto& x : a) c = c && x.conc();
    if (fn == "fmin" || fn == "fmax") { bool mn = fn == "fmin";
      if (c) return vfp(w, mn ? std::fmin(a[0].d, a[1].d) : std::fmax(a[0].d, a[1].d));
      Z3_ast x = fpOf(a[0]), y = fpOf(a[1]); Z3_ast pick = mn ? Z3_mk_fpa_leq(C, x, y) : Z3_mk_fpa_geq(C, x, y);
      return vfps(w, hold(Z3_mk_ite(C, Z3_mk_fpa_is_nan(C, x), y, Z3_mk_ite(C, Z3_mk_fpa_is_nan(C, y), x, Z3_mk_ite(C, pick, x, y))))); }
    if (fn == "copysign") { if (c) return vfp(w, std::copysign(a[0].d, a[1].d)); Z3_ast ab = Z3_mk_fpa_abs(C, fpOf(a[0])); return vfps(w, hold(Z3_mk_ite(C, Z3_mk_fpa_is_negative(C, fpOf(a[1])), Z3_mk_fpa_neg(C, ab), ab))); }
    if (fn == "fma") { if (c) return vfp(w, w == 32 ? std::fma((float)a[0].d, (float)a[1].d, (float)a[2].d) : std::fma(a[0].d, a[1].d, a[2].d)); return vfps(w, hold(Z3_mk_fpa_fma(C, Z3_mk_fpa_rne(C), fpOf(a[0]), fpOf(a[1]), fpOf(a[2])))); }
    if (c) { double r = w == 32 ? (double)(float)libm(fn, a[0].d, a.size() > 1 ? a[1].d : 0) : libm(fn, a[0].d, a.size() > 1 ? a[1].d : 0); return vfp(w, r); }
    Z3_ast x = fpOf(a[0]); Z3_ast rm = nullptr;
    if (fn == "sqrt") return vfps(w, hold(Z3_mk_fpa_sqrt(C, Z3_mk_fpa_rne(C), x)));
    if (fn == "fabs") return vfps(w, hold(Z3_mk_fpa_abs(C, x)));
    if (fn == "floor") rm = Z3_mk_fpa_rtn(C); if (fn == "ceil") rm = Z3_mk_fpa_rtp(C); if (fn == "trunc") rm = Z3_mk_fpa_rtz(C); if (fn == "round") rm = Z3_mk_fpa_rna(C); if (fn == "rint" || fn == "nearbyint") rm = Z3_mk_fpa_rne(C);
    if (rm) return vfps(w, hold(Z3_mk_fpa_round_to_integral(C, rm, x)));
    return fpUF(S, fn, w, a);
  }
  auto B = [&](unsigned op, const Val& x, const Val& y) { return fpBin(S, op, x, y); };
  const Val& x = a[0];
  if (fn == "fma") return B(Instruction::FAdd, B(Instruction::FMul, a[0], a[1]), a[2]);
  if (fn == "fmin" || fn == "fmax") {
    if (x.conc() && x.sp == NaN_) return a[1]; if (a[1].conc() && a[1].sp == NaN_) return x;
    Val c = fcmp(S, fn == "fmin" ? CmpInst::FCMP_OLE : CmpInst::FCMP_OGE, x, a[1]); return select(S, c, x, a[1], Type::getDoubleTy(M.getContext()));
  }
  for (auto& v : a) if (v.conc() && v.sp == NaN_) return vfpsp(w, NaN_);
  if (fn == "fabs" && S.isNN(x)) return x;
  if (fn == "fabs") { if (x.conc()) return x.sp != FIN ? vfpsp(w, PINF) : vfpq(w, abs(*x.q)); if (OPT["forkabs"]) return decide(S, Lt(x.s, num(0))) ? fneg(x) : x; return vfps(w, hold(Z3_mk_ite(C, Le(num(0), x.s), x.s, simp(Z3_mk_unary_minus(C, x.s))))); }
  if (fn == "copysign") { Val m = math(S, "fabs", w, a); std::vector<Val> one{a[0]}; bool neg = a[1].conc() ? (a[1].sp == NINF || (a[1].sp == FIN && *a[1].q < 0)) : decide(S, Lt(a[1].s, num(0))); return neg ? fneg(m) : m; }
  if (fn == "sqrt") return rsqrt_(S, x);
  if (fn == "hypot") return rsqrt_(S, B(Instruction::FAdd, B(Instruction::FMul, a[0], a[0]), B(Instruction::FMul, a[1], a[1])));
  if (fn == "sin" || fn == "cos" || fn == "tan") { Val s, c; trig(S, x, s, c); return fn == "sin" ? s : fn == "cos" ? c : B(Instruction::FDiv, s, c); }
  if (fn == "floor" || fn == "ceil" || fn == "trunc" || fn == "round" || fn == "rint" || fn == "nearbyint") {
    if (x.conc() && x.sp != FIN) return x;
    mpz_class z; Val y = x;
    if (fn == "ceil") y = fneg(x); if (fn == "round" || fn == "rint" || fn == "nearbyint") y = B(Instruction::FAdd, x, vfpq(w, mpq_class(1, 2)));
    int mode = fn == "trunc" ? 0 : 1;
    if (y.conc()) { if (mode == 1) mpz_fdiv_q(z.get_mpz_t(), y.q->get_num().get_mpz_t(), y.q->get_den().get_mpz_t()); else mpz_tdiv_q(z.get_mpz_t(), y.q->get_num().get_mpz_t(), y.q->get_den().get_mpz_t()); }
    else if (OPT["symround"]) {   // a whole number within one of the value, instead of a case per number
      if (getenv("VPSE_FORK")) fprintf(stderr, "ROUND %s %.150s\n", fn.c_str(), Z3_ast_to_string(C, x.s));
      static std::map<Z3_ast, Z3_ast> memo; auto& whole = symWhole(); if (whole.count(x.s)) return x;
      auto fl = [&](Z3_ast e) { Z3_ast& t = memo[e]; if (!t) { t = freshVar("floor", RS()); whole.insert(t); } addPC(S, And({Le(t, e), Lt(e, Add(t, num(1)))})); return t; };
      if (fn == "round" || fn == "trunc") { Z3_ast neg = simp(Z3_mk_unary_minus(C, x.s)), h = fn == "round" ? numd(0.5) : num(0); bool n = decide(S, Lt(x.s, num(0))); Z3_ast t = fl(simp(n ? Add(neg, h) : Add(x.s, h))); Z3_ast r = n ? simp(Z3_mk_unary_minus(C, t)) : t; whole.insert(r); return vfps(w, r); }
      Z3_ast t = fl(y.s); return vfps(w, fn == "ceil" ? simp(Z3_mk_unary_minus(C, t)) : t);
    }
    else z = decideInt(S, y.s, true, mode);
    return vfpq(w, mpq_class(fn == "ceil" ? mpz_class(-z) : z));
  }
  bool c = true; for (auto& v : a) c = c && v.conc();
  if (c) {
    auto dv = [&](const Val& v) { return v.sp == FIN ? mpq2d(*v.q) : v.sp == PINF ? INFINITY : -INFINITY; };
    if (fn == "pow" && a[1].sp == FIN && a[1].q->get_den() == 1 && abs(a[1].q->get_num()) <= 16 && x.sp == FIN && !(*x.q == 0)) { long n = a[1].q->get_num().get_si(); mpq_class r = 1; for (long i = 0; i < std::abs(n); i++) r *= *x.q; if (n < 0) r = 1 / r; return vfpq(w, r); }
    return vfp(w, libm(fn, dv(a[0]), a.size() > 1 ? dv(a[1]) : 0));
  }
  if (fn == "fmod") return B(Instruction::FRem, a[0], a[1]);
  if (OPT["freeangles"] && (fn == "acos" || fn == "asin" || fn == "atan" || fn == "atan2")) { Z3_ast t = freshVar(fn.c_str(), RS()); addAxiom(t, And({Le(numd(-PI_), t), Le(t, numd(PI_))})); return vfps(w, t); }   // any angle: an over-approximation for entries that do not use it
  if (fn == "acos" || fn == "asin") {
    if (x.conc() ) return vfp(w, libm(fn, mpq2d(*x.q), 0));
    if (decide(S, Or({Lt(num(1), x.s), Lt(x.s, num(-1))}))) return vfpsp(w, NaN_);
    static std::map<std::pair<std::string, Z3_ast>, Z3_ast> memo; auto& y = memo[{fn, x.s}];
    if (!y) {
      y = freshVar(fn.c_str(), RS()); Z3_ast in = And({Le(num(-1), x.s), Le(x.s, num(1))});
      if (fn == "acos") { addAxiom(y, And({Le(num(0), y), Le(y, numd(PI_))})); addAxiom(y, Imp(in, hold(Z3_mk_iff(C, Lt(num(0), x.s), Lt(y, numd(PI_ / 2)))))); addAxiom(y, Imp(in, hold(Z3_mk_iff(C, Eq(num(0), x.s), Eq(y, numd(PI_ / 2)))))); addAxiom(y, Imp(Eq(x.s, num(1)), Eq(y, num(0)))); addAxiom(y, Imp(in, Imp(Eq(y, num(0)), Eq(x.s, num(1))))); addAxiom(y, Imp(in, hold(Z3_mk_iff(C, Eq(y, numd(PI_)), Eq(x.s, num(-1)))))); }
      else { addAxiom(y, And({Le(numd(-PI_ / 2), y), Le(y, numd(PI_ / 2))})); addAxiom(y, Imp(in, hold(Z3_mk_iff(C, Lt(num(0), x.s), Lt(num(0), y))))); addAxiom(y, Imp(in, hold(Z3_mk_iff(C, Eq(num(0), x.s), Eq(y, num(0)))))); addAxiom(y, Imp(Eq(x.s, num(1)), Eq(y, numd(PI_ / 2)))); addAxiom(y, Imp(Eq(x.s, num(-1)), Eq(y, numd(-PI_ / 2)))); }
      mono(fn, x.s, y, fn == "asin");
    }
    if (fn == "acos") ACOSV[y] = true;
    if (!TRIG.count(y)) { Val xx = x; Val o = rsqrt_(S, B(Instruction::FSub, vfpq(w, 1), B(Instruction::FMul, x, x))); TRIG.emplace(y, fn == "acos" ? SC{o, xx} : SC{xx, o}); }
    return vfps(w, y);
  }
  if (fn == "atan") {
    if (x.conc()) return vfp(w, libm(fn, x.sp == FIN ? mpq2d(*x.q) : x.sp == PINF ? INFINITY : -INFINITY, 0));
    static std::map<Z3_ast, Z3_ast> memo; auto& y = memo[x.s];
    if (!y) { y = freshVar("atan", RS()); addAxiom(y, And({Lt(numd(-PI_ / 2), y), Lt(y, numd(PI_ / 2)), hold(Z3_mk_iff(C, Lt(num(0), x.s), Lt(num(0), y))), hold(Z3_mk_iff(C, Eq(num(0), x.s), Eq(num(0), y)))})); mono("atan", x.s, y, true); }
    if (!TRIG.count(y)) { Val r = rsqrt_(S, B(Instruction::FAdd, vfpq(w, 1), B(Instruction::FMul, x, x))); Val cc = B(Instruction::FDiv, vfpq(w, 1), r); TRIG.emplace(y, SC{B(Instruction::FMul, x, cc), cc}); }
    return vfps(w, y);
  }
  if (fn == "atan2") {
    const Val& X = a[1]; ENSURE(FIN_(x) && FIN_(X), "atan2 special");
    Val r2 = B(Instruction::FAdd, B(Instruction::FMul, x, x), B(Instruction::FMul, X, X));
    bool zero = r2.conc() ? *r2.q == 0 : decide(S, Eq(r2.s, num(0)));
    if (zero) return vfpq(w, 0);
    static std::map<std::pair<Z3_ast, Z3_ast>, Z3_ast> memo; Z3_ast ys = realOf(x), xs = realOf(X); auto& t = memo[{ys, xs}];
    if (!t) {
      t = freshVar("atan2", RS()); addAxiom(t, And({Le(numd(-PI_), t), Le(t, numd(PI_))}));
      addAxiom(t, Imp(Lt(num(0), ys), And({Lt(num(0), t), Lt(t, numd(PI_))}))); addAxiom(t, Imp(Lt(ys, num(0)), And({Lt(t, num(0)), Lt(numd(-PI_), t)})));
      addAxiom(t, Imp(And({Eq(ys, num(0)), Lt(num(0), xs)}), Eq(t, num(0)))); addAxiom(t, Imp(And({Eq(ys, num(0)), Lt(xs, num(0))}), Eq(t, numd(PI_))));
      addAxiom(t, Imp(Lt(num(0), xs), And({Lt(numd(-PI_ / 2), t), Lt(t, numd(PI_ / 2))}))); addAxiom(t, Imp(And({Eq(xs, num(0)), Lt(num(0), ys)}), Eq(t, numd(PI_ / 2)))); addAxiom(t, Imp(And({Eq(xs, num(0)), Lt(ys, num(0))}), Eq(t, numd(-PI_ / 2))));
      addAxiom(t, Imp(And({Lt(xs, num(0)), Lt(num(0), ys)}), Lt(numd(PI_ / 2), t))); addAxiom(t, Imp(And({Lt(xs, num(0)), Lt(ys, num(0))}), Lt(t, numd(-PI_ / 2))));
    }
    if (!TRIG.count(t)) { Val r = rsqrt_(S, r2); TRIG.emplace(t, SC{B(Instruction::FDiv, x, r), B(Instruction::FDiv, X, r)}); }
    return vfps(w, t);
  }
  if (fn == "exp" || fn == "expm1" || fn == "exp2") {
    if (fn == "expm1") { std::vector<Val> v{x}; return B(Instruction::FSub, math(S, "exp", w, v), vfpq(w, 1)); }
    if (x.conc()) return x.sp == PINF ? x : vfpq(w, 0);
    if (LOGOF.count(x.s) && fn == "exp") return vfps(w, LOGOF[x.s]);
    // canonicalise: exp(-y) = 1/exp(y)
    static std::map<std::pair<std::string, Z3_ast>, Z3_ast> memo; Z3_ast ax = simp(x.s); auto& e = memo[{fn, ax}];
    if (!e) {
      e = freshVar("exp", RS()); EXPOF[e] = ax; addAxiom(e, And({Lt(num(0), e), hold(Z3_mk_iff(C, Lt(num(0), ax), Lt(num(1), e))), hold(Z3_mk_iff(C, Eq(num(0), ax), Eq(e, num(1))))}));
      if (fn == "exp") addAxiom(e, Le(Add(ax, num(1)), e)); mono(fn, ax, e, true);
      if (fn == "exp" && OPT["expadd"]) { // exp(a)*exp(b)=exp(a+b) for known triples
        static std::vector<std::pair<Z3_ast, Z3_ast>> L; 
        for (auto& p : L) for (auto& q : L) {
          Z3_ast d = simp(Sub(Add(p.first, q.first), ax)); if (Z3_get_ast_kind(C, d) == Z3_NUMERAL_AST && !strcmp(Z3_get_numeral_string(C, d), "0")) addAxiom(e, Eq(Mul(p.second, q.second), e));
          d = simp(Sub(Add(ax, p.first), q.first)); if (Z3_get_ast_kind(C, d) == Z3_NUMERAL_AST && !strcmp(Z3_get_numeral_string(C, d), "0")) addAxiom(e, Eq(Mul(p.second, e), q.second));
        }
        for (auto& p : L) { Z3_ast d = simp(Add(p.first, ax)); if (Z3_get_ast_kind(C, d) == Z3_NUMERAL_AST && !strcmp(Z3_get_numeral_string(C, d), "0")) addAxiom(e, Eq(Mul(p.second, e), num(1))); }
        if (L.size() < 8) for (auto& p : L) { Z3_ast d = Sub(ax, p.first); mpq_class q; if (polyDiff(S, ax, p.first, q, nullptr)) { double v = std::exp(mpq2d(q)); addAxiom(e, And({Le(Mul(numd(v * (1 - 1e-13)), p.second), e), Le(e, Mul(numd(v * (1 + 1e-13)), p.second))})); continue; }
          addAxiom(e, Imp(And({Le(num(0), d), Le(d, num(1))}), Le(e, Add(p.second, Mul(Mul(num(2), d), p.second))))); addAxiom(e, Imp(And({Le(num(-1), d), Le(d, num(0))}), Le(Add(p.second, Mul(Mul(num(2), d), p.second)), e))); }
        L.push_back({ax, e});
      }
    }
    return vfps(w, e);
  }
  if (fn == "log" || fn == "log10" || fn == "log2" || fn == "log1p") {
    if (fn == "log1p") { std::vector<Val> v{B(Instruction::FAdd, x, vfpq(w, 1))}; return math(S, "log", w, v); }
    if (x.conc()) return vfp(w, libm(fn, x.sp == FIN ? mpq2d(*x.q) : x.sp == PINF ? INFINITY : -INFINITY, 0));
    if (decide(S, Lt(x.s, num(0)))) return vfpsp(w, NaN_); if (decide(S, Eq(x.s, num(0)))) return vfpsp(w, NINF);
    if (fn == "log" && EXPOF.count(x.s)) return vfps(w, EXPOF[x.s]);
    static std::map<std::pair<std::string, Z3_ast>, Z3_ast> memo; Z3_ast ax = simp(x.s); auto& l = memo[{fn, ax}];
    if (!l) { l = freshVar(fn.c_str(), RS()); if (fn == "log") LOGOF[l] = ax; addAxiom(l, Imp(Lt(num(0), ax), And({hold(Z3_mk_iff(C, Lt(num(1), ax), Lt(num(0), l))), hold(Z3_mk_iff(C, Eq(num(1), ax), Eq(l, num(0))))}))); if (fn == "log") addAxiom(l, Imp(Lt(num(0), ax), Le(l, Sub(ax, num(1))))); mono(fn, ax, l, true); }
    return vfps(w, l);
  }
  if (fn == "pow" || fn == "cbrt") {
    Val ex = fn == "cbrt" ? vfpq(w, mpq_class(1, 3)) : a[1];
    if (ex.conc()) {
      if (ex.sp != FIN || !FIN_(x)) throw Unsupported{"pow special"};
      mpq_class q = *ex.q;
      if (q.get_den() == 1 && abs(q.get_num()) <= 16) { long n = q.get_num().get_si(); Val r = vfpq(w, 1); for (long i = 0; i < std::abs(n); i++) r = B(Instruction::FMul, r, x); return n < 0 ? B(Instruction::FDiv, vfpq(w, 1), r) : r; }
      if (fn == "cbrt") { static std::map<Z3_ast, Z3_ast> memo; auto& y = memo[x.s]; if (!y) { y = freshVar("cbrt", RS()); addAxiom(y, Eq(Mul(y, Mul(y, y)), x.s)); } return vfps(w, y); }
      if ((q.get_den() == 2 || ((q.get_den() == 4 || q.get_den() == 8) && FIN_(x))) && abs(q.get_num()) <= 15) { Val s = rsqrt_(S, x); std::vector<Val> v{s, vfpq(w, q * 2)}; return math(S, "pow", w, v); }
      if (decide(S, Lt(x.s, num(0)))) return vfpsp(w, NaN_);
      static std::map<std::pair<Z3_ast, std::string>, Z3_ast> memo; static std::unordered_map<Z3_ast, std::pair<Z3_ast, mpq_class>> POWOF; Z3_ast ax = simp(x.s);
      auto po = POWOF.find(ax); if (po != POWOF.end()) { mpq_class nq = po->second.second * q; std::vector<Val> v{vfps(w, po->second.first), vfpq(w, nq)}; if (nq == 1) return v[0]; return math(S, "pow", w, v); }
      auto& p = memo[{ax, q.get_str()}];
      if (!p) { p = freshVar("pow", RS()); POWOF[p] = {ax, q}; bool pos = q > 0; std::string nm = "pow" + q.get_str();
        if (pos) addAxiom(p, Imp(Le(num(0), ax), And({Le(num(0), p), hold(Z3_mk_iff(C, Eq(ax, num(0)), Eq(p, num(0)))), hold(Z3_mk_iff(C, Lt(num(1), ax), Lt(num(1), p))), hold(Z3_mk_iff(C, Eq(num(1), ax), Eq(p, num(1))))})));
        else addAxiom(p, Imp(Lt(num(0), ax), And({Lt(num(0), p), hold(Z3_mk_iff(C, Lt(num(1), ax), Lt(p, num(1)))), hold(Z3_mk_iff(C, Eq(num(1), ax), Eq(p, num(1))))})));
        if (pos) addAxiom(p, Imp(And({Le(num(0), ax), Le(ax, num(1))}), q > 1 ? Le(p, ax) : Le(ax, p)));
        // numeric anchor points (monotone bracketing)
        for (double t : {0.003, 0.0031308, 0.04045, 0.01, 0.1, 0.5, 2.0, 10.0}) { double v = std::pow(t, mpq2d(q)); double lo = v - std::fabs(v) * 1e-9, hi = v + std::fabs(v) * 1e-9; if (OPT["powanchor"]) { if (pos) { addAxiom(p, Imp(And({Le(num(0), ax), Le(ax, numd(t))}), Le(p, numd(hi)))); addAxiom(p, Imp(Le(numd(t), ax), Le(numd(lo), p))); } } }
        mono(nm, ax, p, pos); }
      return vfps(w, p);
    }
    // symbolic exponent
    std::vector<Z3_ast> k{realOf(x), realOf(ex)};
    if (x.conc() && *x.q == 1) return x;
    if (!x.conc() && decide(S, Lt(x.s, num(0)))) throw Unsupported{"pow of negative with symbolic exponent"};
    static std::map<std::vector<Z3_ast>, Z3_ast> memo2; auto& p = memo2[k];
    if (!p) { p = freshVar("powv", RS());
      if (x.conc() && *x.q > 0 && OPT["expadd"]) { static std::map<Z3_ast, std::vector<std::pair<Z3_ast, Z3_ast>>> L; auto& l = L[k[0]]; double b = mpq2d(*x.q); for (auto& o : l) { mpq_class q; if (polyDiff(S, k[1], o.first, q, nullptr)) { double v = std::pow(b, mpq2d(q)); addAxiom(p, And({Le(Mul(numd(v * (1 - 1e-13)), o.second), p), Le(p, Mul(numd(v * (1 + 1e-13)), o.second))})); } } if (l.size() < 8) l.push_back({k[1], p}); } addAxiom(p, Imp(Lt(num(0), k[0]), Lt(num(0), p))); addAxiom(p, Imp(And({Le(num(0), k[0]), Lt(num(0), k[1])}), And({Le(num(0), p), hold(Z3_mk_iff(C, Eq(k[0], num(0)), Eq(p, num(0)))), hold(Z3_mk_iff(C, Lt(num(1), k[0]), Lt(num(1), p))), hold(Z3_mk_iff(C, Eq(num(1), k[0]), Eq(num(1), p)))})));
      addAxiom(p, Imp(And({Lt(num(1), k[0])}), And({hold(Z3_mk_iff(C, Lt(num(0), k[1]), Lt(num(1), p))), hold(Z3_mk_iff(C, Eq(num(0), k[1]), Eq(num(1), p)))})));
      mono("powe" + std::to_string((uint64_t)(uintptr_t)k[0]), k[1], p, true); if (!x.conc()) MONO.erase("powe" + std::to_string((uint64_t)(uintptr_t)k[0])); }
    return vfps(w, p);
  }
  // other unary functions: uninterpreted with congruence
  if (a.size() == 1) { static std::map<std::pair<std::string, Z3_ast>, Z3_ast> memo; auto& y = memo[{fn, x.s}]; if (!y) { y = freshVar(fn.c_str(), RS()); congr(fn, x.s, y); } return vfps(w, y); }
  throw Unsupported{"math " + fn};
}
// --symround: an unsigned whole number whose bits are unknowns tied to the value
Val Exec::wholeBits(State& S, const Val& a, unsigned w) {
  static std::map<std::pair<Z3_ast, unsigned>, Z3_ast> memo; Z3_ast x = a.s; Z3_ast& b = memo[{x, w}]; if (!b) b = freshVar("bits", bvSort(w));
  auto pow2 = [](unsigned i) { mpz_class z(1); z <<= i; return hold(Z3_mk_numeral(C, z.get_str().c_str(), RS())); }; Z3_ast zero = num(0);
  if (S.decPos >= S.dec.size()) errorIf(S, Or({Le(x, num(-1)), Le(pow2(w), x)}), "memory-safety", "float-to-integer conversion out of range");
  Z3_ast one = Z3_mk_numeral(C, "1", Z3_mk_bv_sort(C, 1)); std::vector<Z3_ast> t; for (unsigned i = 0; i < w; i++) t.push_back(hold(Z3_mk_ite(C, simp(Z3_mk_eq(C, Z3_mk_extract(C, i, i, b), one)), pow2(i), zero)));
  Z3_ast r = hold(Z3_mk_add(C, w, t.data())); if (symWhole().count(x)) addPC(S, hold(Z3_mk_eq(C, r, x))); else addPC(S, And({Lt(x, hold(Add(r, num(1)))), Or({Le(r, x), hold(Z3_mk_eq(C, r, zero))})}));
  return vsym(w, b);
}
