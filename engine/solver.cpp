#include "solver.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <poll.h>
Z3_context C; bool REAL = true; std::map<std::string, long> OPT; SolverStats SS;
static std::unordered_map<Z3_ast, std::vector<Z3_ast>> AX;
static std::unordered_map<Z3_ast, std::vector<Z3_ast>> VARS;
void addAxiom(Z3_ast var, Z3_ast ax) { AX[var].push_back(hold(ax)); }
bool isTrue(Z3_ast a) { return Z3_get_bool_value(C, a) == Z3_L_TRUE; }
bool isFalse(Z3_ast a) { return Z3_get_bool_value(C, a) == Z3_L_FALSE; }
Z3_ast simp(Z3_ast a) { try { return hold(Z3_simplify(C, a)); } catch (Z3Error& e) { if (getenv("VPSE_DEBUG")) fprintf(stderr, "[simp] %s on %s\n", e.msg.c_str(), Z3_ast_to_string(C, a)); return a; } }
Z3_ast mkNot(Z3_ast a) {
  if (isTrue(a)) return hold(Z3_mk_false(C));
  if (isFalse(a)) return hold(Z3_mk_true(C));
  if (Z3_get_ast_kind(C, a) == Z3_APP_AST) {
    Z3_app p = Z3_to_app(C, a);
    if (Z3_get_decl_kind(C, Z3_get_app_decl(C, p)) == Z3_OP_NOT) return Z3_get_app_arg(C, p, 0);
  }
  return hold(Z3_mk_not(C, a));
}
const std::vector<Z3_ast>& varsOf(Z3_ast a) {
  auto it = VARS.find(a);
  if (it != VARS.end()) return it->second;
  std::vector<Z3_ast> out, st{a};
  std::unordered_set<Z3_ast> seen;
  while (!st.empty()) {
    Z3_ast x = st.back(); st.pop_back();
    if (!seen.insert(x).second) continue;
    if (Z3_get_ast_kind(C, x) != Z3_APP_AST) continue;
    Z3_app p = Z3_to_app(C, x);
    unsigned n = Z3_get_app_num_args(C, p);
    if (n == 0) {
      if (Z3_get_decl_kind(C, Z3_get_app_decl(C, p)) == Z3_OP_UNINTERPRETED) out.push_back(x);
    } else
      for (unsigned i = 0; i < n; i++) st.push_back(Z3_get_app_arg(C, p, i));
  }
  return VARS[a] = out;
}
std::vector<Z3_ast> slice(const std::vector<Z3_ast>& pc, const std::vector<Z3_ast>& extra) {
  std::vector<Z3_ast> res(extra);
  std::unordered_set<Z3_ast> vars; std::vector<Z3_ast> work;
  auto addv = [&](Z3_ast c) { for (auto v : varsOf(c)) if (vars.insert(v).second) work.push_back(v); };
  for (auto e : extra) addv(e);
  std::vector<char> used(pc.size(), 0);
  std::unordered_set<Z3_ast> axs;
  bool ch = true;
  while (ch) {
    ch = false;
    while (!work.empty()) {
      Z3_ast v = work.back(); work.pop_back();
      auto it = AX.find(v);
      if (it != AX.end())
        for (auto ax : it->second) if (axs.insert(ax).second) { res.push_back(ax); addv(ax); }
      ch = true;
    }
    for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
      bool hit = false;
      for (auto v : varsOf(pc[i])) if (vars.count(v)) { hit = true; break; }
      if (hit) { used[i] = 1; res.push_back(pc[i]); addv(pc[i]); ch = true; }
    }
  }
  return res;
}
double DEADLINE = 1e300;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void getAssign(Z3_model m, const std::vector<Z3_ast>& cs, Assign* out) {
  if (!out) return;
  for (auto c : cs) for (auto v : varsOf(c)) {
    Z3_ast val = nullptr;
    if (Z3_model_eval(C, m, v, true, &val) && val) (*out)[v] = hold(val);
  }
}
static Z3_params mkParams(unsigned ms) {
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
  return p;
}
static R runSolver_(Z3_solver s, const std::vector<Z3_ast>& cs, unsigned ms, Assign* out);
static R runSolver(Z3_solver s, const std::vector<Z3_ast>& cs, unsigned ms, Assign* out) { try { return runSolver_(s, cs, ms, out); } catch (Z3Error&) { return R::UNK; } }
static R runSolver_(Z3_solver s, const std::vector<Z3_ast>& cs, unsigned ms, Assign* out) {
  Z3_solver_inc_ref(C, s);
  Z3_params p = mkParams(ms);
  Z3_solver_set_params(C, s, p);
  for (auto c : cs) Z3_solver_assert(C, s, c);
  Z3_lbool r = Z3_solver_check(C, s);
  R res = r == Z3_L_TRUE ? R::SAT : r == Z3_L_FALSE ? R::UNSAT : R::UNK;
  if (res == R::SAT && out) {
    Z3_model m = Z3_solver_get_model(C, s);
    if (m) { Z3_model_inc_ref(C, m); getAssign(m, cs, out); Z3_model_dec_ref(C, m); }
  }
  Z3_params_dec_ref(C, p);
  Z3_solver_dec_ref(C, s);
  return res;
}
static Z3_solver tacticSolver(const char* name) {
  Z3_tactic t = Z3_mk_tactic(C, name);
  Z3_tactic_inc_ref(C, t);
  return Z3_mk_solver_from_tactic(C, t);
}
static Z3_solver seqSolver(std::vector<const char*> ts) {
  Z3_tactic t = Z3_mk_tactic(C, ts[0]); Z3_tactic_inc_ref(C, t);
  for (size_t i = 1; i < ts.size(); i++) {
    Z3_tactic u = Z3_mk_tactic(C, ts[i]); Z3_tactic_inc_ref(C, u);
    t = Z3_tactic_and_then(C, t, u); Z3_tactic_inc_ref(C, t);
  }
  return Z3_mk_solver_from_tactic(C, t);
}
// ---- external portfolio -----------------------------------------------------------------
static std::string smt2(const std::vector<Z3_ast>& cs, const char* logic) {
  std::string s;
  std::vector<Z3_ast> a(cs.begin(), cs.end());
  Z3_ast last = a.empty() ? Z3_mk_true(C) : a.back();
  unsigned n = a.empty() ? 0 : (unsigned)a.size() - 1;
  s = Z3_benchmark_to_smtlib_string(C, "q", logic, "unknown", "", n, a.data(), last);
  return s;
}
struct Proc { pid_t pid; int fd; std::string out; bool done = false; R r = R::UNK; std::string name; };
static void spawn(Proc& p, std::vector<std::string> av) {
  int fds[2]; if (pipe(fds)) { p.done = true; return; }
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    dup2(fds[1], 1); int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); close(fds[0]); close(fds[1]);
    std::vector<char*> v; for (auto& x : av) v.push_back((char*)x.c_str()); v.push_back(nullptr);
    execvp(v[0], v.data()); _exit(127);
  }
  close(fds[1]); p.pid = pid; p.fd = fds[0];
}
static int tmpN = 0;
static std::string readF(const std::string& f) { std::ifstream i(f); std::stringstream ss; ss << i.rdbuf(); return ss.str(); }
static void parseModel(const std::string& txt, const std::vector<Z3_ast>& vars, Assign* out);
static R external(const std::vector<Z3_ast>& cs, unsigned ms, Assign* out, bool fp) {
  SS.ext++;
  std::string base = std::string(getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp") + "/vpse_" + std::to_string(getpid()) + "_" + std::to_string(tmpN++);
  std::string body = smt2(cs, fp ? "QF_BVFP" : "QF_NIRA");
  // strip set-logic for z3, keep own for cvc5
  std::set<Z3_ast> vs; for (auto c : cs) for (auto v : varsOf(c)) vs.insert(v);
  std::string gv = "(get-value (";
  for (auto v : vs) gv += std::string(Z3_ast_to_string(C, v)) + " ";
  gv += "))\n";
  auto pos = body.find("(set-logic"); if (pos != std::string::npos) { auto e = body.find(')', pos); body.erase(pos, e - pos + 1); }
  { std::ofstream f(base + ".z3.smt2"); f << "(set-option :pp.decimal true)(set-option :pp.decimal_precision 20)\n" << body << (vs.empty() ? "" : gv); }
  { std::ofstream f(base + ".cv.smt2"); f << "(set-logic ALL)\n(set-option :produce-models true)\n" << body << (vs.empty() ? "" : gv); }
  std::vector<Proc> ps;
  std::string T = std::to_string(ms / 1000 + 1);
  auto add = [&](const char* n, std::vector<std::string> av) { ps.emplace_back(); ps.back().name = n; spawn(ps.back(), av); };
  add("cvc5", {"cvc5", "--tlimit=" + std::to_string(ms), base + ".cv.smt2"});
  if (!fp) {
    add("z3nl", {"z3-new", "-T:" + T, "tactic.default_tactic=(then simplify propagate-values solve-eqs elim-uncnstr simplify nlsat)", base + ".z3.smt2"});
    add("z3old", {"z3", "-T:" + T, base + ".z3.smt2"});
  } else {
    add("z3", {"z3-new", "-T:" + T, base + ".z3.smt2"});
    add("z3old", {"z3", "-T:" + T, base + ".z3.smt2"});
  }
  double t0 = now(); R res = R::UNK; std::string mtxt;
  while (res == R::UNK && now() - t0 < ms / 1000.0 + 2) {
    std::vector<pollfd> pf; std::vector<size_t> ix;
    for (size_t i = 0; i < ps.size(); i++) if (!ps[i].done) { pf.push_back({ps[i].fd, POLLIN, 0}); ix.push_back(i); }
    if (pf.empty()) break;
    poll(pf.data(), pf.size(), 200);
    for (size_t k = 0; k < pf.size(); k++) if (pf[k].revents) {
      char buf[65536]; ssize_t n = read(pf[k].fd, buf, sizeof buf);
      Proc& p = ps[ix[k]];
      if (n > 0) p.out.append(buf, n);
      else {
        p.done = true;
        if (p.out.compare(0, 5, "unsat") == 0) { res = R::UNSAT; }
        else if (p.out.compare(0, 3, "sat") == 0) { res = R::SAT; mtxt = p.out; }
        if (res != R::UNK) break;
      }
    }
  }
  for (auto& p : ps) { kill(-p.pid, SIGKILL); kill(p.pid, SIGKILL); close(p.fd); int st; waitpid(p.pid, &st, 0); }
  unlink((base + ".z3.smt2").c_str()); unlink((base + ".cv.smt2").c_str());
  if (res == R::SAT && out) parseModel(mtxt, std::vector<Z3_ast>(vs.begin(), vs.end()), out);
  return res;
}
// minimal s-expression model parser
struct SX { std::string a; std::vector<SX> l; bool atom; };
static SX parseSX(const std::string& s, size_t& i) {
  while (i < s.size() && isspace(s[i])) i++;
  SX r;
  if (i < s.size() && s[i] == '(') {
    r.atom = false; i++;
    while (true) {
      while (i < s.size() && isspace(s[i])) i++;
      if (i >= s.size() || s[i] == ')') { i++; break; }
      r.l.push_back(parseSX(s, i));
    }
  } else {
    r.atom = true;
    if (i < s.size() && s[i] == '|') { size_t e = s.find('|', i + 1); if (e == std::string::npos) e = s.size() - 1; r.a = s.substr(i, e - i + 1); i = e + 1; }
    else while (i < s.size() && !isspace(s[i]) && s[i] != '(' && s[i] != ')') r.a += s[i++];
  }
  return r;
}
static bool sxq(const SX& x, mpq_class& q) {
  if (x.atom) {
    std::string a = x.a; if (!a.empty() && a.back() == '?') a.pop_back();
    if (a.empty()) return false;
    bool neg = a[0] == '-'; if (neg) a = a.substr(1);
    auto d = a.find('.'); 
    for (char ch : a) if (!isdigit(ch) && ch != '.' && ch != '/') return false;
    try {
      if (d == std::string::npos) q = mpq_class(a);
      else { std::string ip = a.substr(0, d), fp = a.substr(d + 1); if (ip.empty()) ip = "0";
        mpz_class den; mpz_ui_pow_ui(den.get_mpz_t(), 10, fp.size()); q = mpq_class(mpz_class(ip + fp, 10), den); q.canonicalize(); }
    } catch (...) { return false; }
    if (neg) q = -q; return true;
  }
  if (x.l.size() == 2 && x.l[0].atom && x.l[0].a == "-") { if (!sxq(x.l[1], q)) return false; q = -q; return true; }
  if (x.l.size() == 3 && x.l[0].atom && x.l[0].a == "/") { mpq_class b; if (!sxq(x.l[1], q) || !sxq(x.l[2], b) || b == 0) return false; q /= b; return true; }
  return false;
}
static void parseModel(const std::string& txt, const std::vector<Z3_ast>& vars, Assign* out) {
  std::map<std::string, Z3_ast> nm; for (auto v : vars) nm[Z3_ast_to_string(C, v)] = v;
  size_t i = txt.find('('); if (i == std::string::npos) return;
  SX m = parseSX(txt, i);
  for (auto& p : m.l) if (!p.atom && p.l.size() == 2 && p.l[0].atom) {
    auto it = nm.find(p.l[0].a); if (it == nm.end()) continue;
    Z3_ast v = it->second; Z3_sort so = Z3_get_sort(C, v); Z3_ast val = nullptr;
    switch (Z3_get_sort_kind(C, so)) {
      case Z3_BOOL_SORT: val = p.l[1].a == "true" ? Z3_mk_true(C) : Z3_mk_false(C); break;
      case Z3_REAL_SORT: case Z3_INT_SORT: { mpq_class q; if (sxq(p.l[1], q)) val = Z3_mk_numeral(C, q.get_str().c_str(), so); break; }
      case Z3_BV_SORT: {
        const std::string& a = p.l[1].a;
        mpz_class z; if (a.compare(0, 2, "#x") == 0) z = mpz_class(a.substr(2), 16); else if (a.compare(0, 2, "#b") == 0) z = mpz_class(a.substr(2), 2); else break;
        val = Z3_mk_numeral(C, z.get_str().c_str(), so); break; }
      default: break;
    }
    if (val) (*out)[v] = hold(val);
  }
}
static std::map<std::vector<Z3_ast>, R> QC;
static bool hasBVFP(const std::vector<Z3_ast>& cs, bool& bv, bool& fp, bool& real) {
  bv = fp = real = false;
  for (auto c : cs) for (auto v : varsOf(c)) {
    switch (Z3_get_sort_kind(C, Z3_get_sort(C, v))) {
      case Z3_BV_SORT: bv = true; break;
      case Z3_FLOATING_POINT_SORT: fp = true; break;
      case Z3_REAL_SORT: case Z3_INT_SORT: real = true; break;
      default: break;
    }
  }
  return true;
}
static R rawCheck(const std::vector<Z3_ast>& cs, bool strong, Assign* out) {
  bool bv, fp, real; hasBVFP(cs, bv, fp, real);
  R r = R::UNK;
  unsigned tq = (unsigned)OPT["tq"], ts = (unsigned)OPT["ts"];
  { double left = DEADLINE - now(); if (left < -6) return R::UNK; unsigned lm = (unsigned)(1000 * std::max(1.0, left)); tq = std::min(tq, lm); ts = std::min(ts, lm); }
  if (REAL && real) {
    r = runSolver(Z3_mk_solver(C), cs, strong ? tq * 2 : tq, out);
    if (r == R::UNK && !bv) r = runSolver(seqSolver({"simplify", "propagate-values", "solve-eqs", "purify-arith", "elim-term-ite", "solve-eqs", "qfnra-nlsat"}), cs, strong ? ts : tq * 2, out);
    if (r == R::UNK && strong) r = external(cs, ts, out, false);
  } else {
    r = runSolver(Z3_mk_solver(C), cs, strong ? ts / 4 : tq, out);
    if (r == R::UNK && (strong || OPT["extfork"])) r = external(cs, strong ? ts : tq * 2, out, true);
  }
  return r;
}
R checkSat(const std::vector<Z3_ast>& pc, const std::vector<Z3_ast>& extra, bool strong, Assign* out) {
  std::vector<Z3_ast> ex;
  for (auto e : extra) { Z3_ast s = simp(e); if (isFalse(s)) return R::UNSAT; if (!isTrue(s)) ex.push_back(e); }
  if (ex.empty() && !out) return R::SAT;
  std::vector<Z3_ast> cs = slice(pc, ex);
  if (ex.empty()) cs = pc;
  std::vector<Z3_ast> key(cs); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  if (!out) { auto it = QC.find(key); if (it != QC.end() && (it->second != R::UNK || !strong)) { SS.cached++; return it->second; } }
  double t0 = now();
  R r = rawCheck(key, strong, out);
  double dt = now() - t0; SS.secs += dt; SS.queries++;
  if (OPT["qlog"] && dt > 0.5) {
    fprintf(stderr, "[q] %.2fs %s n=%zu strong=%d\n", dt, r == R::SAT ? "sat" : r == R::UNSAT ? "unsat" : "unk", key.size(), strong);
    if (OPT["qlog"] > 1) { static int n = 0; std::ofstream f("/tmp/vpq_" + std::to_string(getpid()) + "_" + std::to_string(n++) + ".smt2"); f << smt2(key, "ALL"); }
  }
  (r == R::SAT ? SS.sat : r == R::UNSAT ? SS.unsat : SS.unk)++;
  QC[key] = r;
  return r;
}
R solveAll(const std::vector<Z3_ast>& pc, const std::vector<Z3_ast>& extra, Assign& out, bool strong, int variant,
           const std::vector<Z3_ast>& pinVars) {
  Assign a;
  std::vector<Z3_ast> ex(extra);
  R r = checkSat(pc, ex, strong, &a);
  if (r != R::SAT) return r;
  if (variant > 0) {
    // diversify: pin input variables one after another to "generic" rationals
    std::mt19937 rng(1234 + 77 * variant + (unsigned)OPT["seed"]);
    std::vector<Z3_ast> pv(pinVars); std::shuffle(pv.begin(), pv.end(), rng);
    int fails = 0; double t0 = now();
    for (auto v : pv) {
      if (fails > 12 || now() - t0 > 10) break;
      Z3_sort so = Z3_get_sort(C, v);
      if (Z3_get_sort_kind(C, so) != Z3_REAL_SORT) continue;
      bool ok = false;
      for (int t = 0; t < 3 && !ok; t++) {
        long num = (long)(rng() % 2000) - 1000; double sc[] = {1, 0.01, 100};
        mpq_class q(num, 1000); if (num == 0) q = mpq_class(1, 3); q *= mpq_class((long)(sc[t] * 100), 100); q.canonicalize();
        Z3_ast eq = hold(Z3_mk_eq(C, v, Z3_mk_numeral(C, q.get_str().c_str(), so)));
        ex.push_back(eq); Assign b;
        std::vector<Z3_ast> cs = slice(pc, ex);
        double tt = now(); R rr = runSolver(Z3_mk_solver(C), cs, 700, &b); SS.queries++; SS.secs += now() - tt;
        if (rr == R::SAT) { a = b; ok = true; SS.sat++; } else { ex.pop_back(); fails++; if (rr == R::UNSAT) SS.unsat++; else SS.unk++; }
      }
    }
  }
  out = a;
  // remaining independent components
  std::unordered_set<Z3_ast> seen; for (auto& kv : a) seen.insert(kv.first);
  for (auto c : pc) {
    bool cov = true, any = false;
    for (auto v : varsOf(c)) { any = true; if (!seen.count(v)) { cov = false; break; } }
    if (cov || !any) continue;
    Assign b; R rr = checkSat(pc, {c}, false, &b);
    if (rr == R::SAT) for (auto& kv : b) if (seen.insert(kv.first).second) out[kv.first] = kv.second;
    if (rr == R::UNSAT) return R::UNSAT;
  }
  return R::SAT;
}
bool pinnedSearch(const std::vector<Z3_ast>& pc, Z3_ast bad, const std::vector<Z3_ast>& pinVars, std::vector<Z3_ast>& pins) {
  double t0 = now();
  for (int variant = 0; variant < 4 && now() - t0 < 12; variant++) {
    std::mt19937 rng(977 + 31 * variant + (unsigned)OPT["seed"]);
    std::vector<Z3_ast> pv(pinVars), ex; std::shuffle(pv.begin(), pv.end(), rng);
    double t1 = now();
    for (auto v : pv) {
      Z3_sort so = Z3_get_sort(C, v); if (Z3_get_sort_kind(C, so) != Z3_REAL_SORT) continue;
      for (int t = 0; t < 3 && now() - t1 < 4; t++) {
        long num = (long)(rng() % 2000) - 1000; long sc[] = {100, 1, 10000}; mpq_class q(num == 0 ? 333 : num, 1000); q *= mpq_class(sc[t], 100); q.canonicalize();
        Z3_ast eq = hold(Z3_mk_eq(C, v, Z3_mk_numeral(C, q.get_str().c_str(), so))); ex.push_back(eq);
        std::vector<Z3_ast> cs = slice(pc, ex); double tt = now(); R rr = runSolver(Z3_mk_solver(C), cs, 300, nullptr); SS.queries++; SS.secs += now() - tt; (rr == R::SAT ? SS.sat : rr == R::UNSAT ? SS.unsat : SS.unk)++;
        if (rr == R::SAT) break; ex.pop_back();
      }
    }
    ex.push_back(bad); std::vector<Z3_ast> cs = slice(pc, ex); double tt = now(); R rr = runSolver(Z3_mk_solver(C), cs, 2500, nullptr); SS.queries++; SS.secs += now() - tt; (rr == R::SAT ? SS.sat : rr == R::UNSAT ? SS.unsat : SS.unk)++;
    if (rr == R::SAT) { pins = ex; return true; }
  }
  return false;
}
std::string valueStr(Z3_ast v) {
  Z3_sort so = Z3_get_sort(C, v);
  switch (Z3_get_sort_kind(C, so)) {
    case Z3_BOOL_SORT: return isTrue(v) ? "1" : "0";
    case Z3_BV_SORT: { std::string s = Z3_get_numeral_string(C, v); return s; }
    case Z3_REAL_SORT: case Z3_INT_SORT: {
      std::string s;
      if (Z3_is_algebraic_number(C, v)) {
        s = Z3_get_numeral_decimal_string(C, v, 25);
        if (!s.empty() && s.back() == '?') s.pop_back(); return s; }
      s = Z3_get_numeral_string(C, v);
      mpq_class q(s); q.canonicalize(); char buf[64]; snprintf(buf, sizeof buf, "%.17g", mpq2d(q)); return buf;
    }
    default: return Z3_ast_to_string(C, v);
  }
}
