// Polynomial normal forms over the rationals, modulo the polynomial equations known on the current path
// (x^2+y^2+z^2=1, sin^2+cos^2=1, sqrt(a)^2=a, q*a=1, assumed equalities).  A truncated Buchberger completion keeps the
// rule set useful; the normal form is only used in the sound direction (equal normal forms => equal values).
#include "exec.hpp"
#include "poly.hpp"
typedef std::vector<std::pair<int, int>> Mono;   // (variable index descending, exponent)
struct MonoCmp { bool operator()(const Mono& a, const Mono& b) const {   // descending lex, newest variable first
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; i++) { if (a[i].first != b[i].first) return a[i].first > b[i].first; if (a[i].second != b[i].second) return a[i].second > b[i].second; }
  return a.size() > b.size(); } };
struct Poly { std::map<Mono, mpq_class, MonoCmp> t; };
typedef std::shared_ptr<const Poly> PolyP;
struct Rule { Mono lm; Poly tail; };              // lm -> tail
struct RuleSet { std::vector<Rule> r; int id; std::set<Z3_ast> seen; };
static std::unordered_map<Z3_ast, int> VIX; static std::vector<Z3_ast> VAST; static int RSID = 1;
static const size_t MAXT = 300;
struct TooBig {};
static int vix(Z3_ast a) { auto it = VIX.find(a); if (it != VIX.end()) return it->second; int i = (int)VAST.size(); VAST.push_back(hold(a)); return VIX[a] = i; }
static Mono mmul(const Mono& a, const Mono& b) { Mono r; size_t i = 0, j = 0; while (i < a.size() || j < b.size()) { if (j >= b.size() || (i < a.size() && a[i].first > b[j].first)) r.push_back(a[i++]); else if (i >= a.size() || b[j].first > a[i].first) r.push_back(b[j++]); else { r.push_back({a[i].first, a[i].second + b[j].second}); i++; j++; } } return r; }
static bool mdiv(const Mono& a, const Mono& b, Mono& q) { // a / b
  q.clear(); size_t j = 0; for (size_t i = 0; i < a.size(); i++) { if (j < b.size() && b[j].first > a[i].first) return false; if (j < b.size() && b[j].first == a[i].first) { int e = a[i].second - b[j].second; if (e < 0) return false; if (e) q.push_back({a[i].first, e}); j++; } else q.push_back(a[i]); }
  return j == b.size(); }
static int mdeg(const Mono& a) { int d = 0; for (auto& p : a) d += p.second; return d; }
static void addTerm(Poly& p, const Mono& m, const mpq_class& c) { if (c == 0) return; auto it = p.t.find(m); if (it == p.t.end()) { p.t.emplace(m, c); if (p.t.size() > MAXT * 4) throw TooBig(); } else { it->second += c; if (it->second == 0) p.t.erase(it); } }
static void axpy(Poly& p, const Poly& q, const mpq_class& c, const Mono& m) { for (auto& t : q.t) addTerm(p, mmul(t.first, m), t.second * c); }
static Poly reduce(const Poly& p0, const RuleSet* rs) {
  if (!rs || rs->r.empty()) return p0;
  Poly p = p0, out; long steps = 0; Mono q;
  while (!p.t.empty()) {
    auto it = p.t.begin(); bool hit = false;
    for (auto& r : rs->r) if (mdiv(it->first, r.lm, q)) { mpq_class c = it->second; Mono qq = q; p.t.erase(it); axpy(p, r.tail, c, qq); hit = true; break; }
    if (!hit) { out.t.emplace(it->first, it->second); p.t.erase(it); }
    if (++steps > 6000 || out.t.size() > MAXT * 4) throw TooBig();
  }
  return out;
}
static Poly pmul(const Poly& a, const Poly& b) { if (a.t.size() * b.t.size() > 20000) throw TooBig(); Poly r; for (auto& x : a.t) for (auto& y : b.t) addTerm(r, mmul(x.first, y.first), x.second * y.second); return r; }
static Poly pconst(const mpq_class& q) { Poly p; if (q != 0) p.t.emplace(Mono(), q); return p; }
// ---- polynomial of an AST
static std::map<std::pair<int, Z3_ast>, PolyP> PM;   // (rule set id, ast) -> normal form (null: too big)
static PolyP polyOf(Z3_ast a, const RuleSet* rs, int depth = 0) {
  auto key = std::make_pair(rs ? rs->id : 0, a); auto it = PM.find(key); if (it != PM.end()) return it->second;
  if (depth > 600) return nullptr;
  PolyP res;
  try {
    Poly p;
    if (Z3_get_ast_kind(C, a) == Z3_NUMERAL_AST) { mpq_class q(Z3_get_numeral_string(C, a)); q.canonicalize(); p = pconst(q); }
    else {
      bool atom = true;
      if (Z3_get_ast_kind(C, a) == Z3_APP_AST) {
        Z3_app ap = Z3_to_app(C, a); unsigned n = Z3_get_app_num_args(C, ap); Z3_decl_kind k = Z3_get_decl_kind(C, Z3_get_app_decl(C, ap));
        if (k == Z3_OP_ADD || k == Z3_OP_SUB || k == Z3_OP_MUL || k == Z3_OP_UMINUS) {
          atom = false;
          for (unsigned i = 0; i < n; i++) { PolyP q = polyOf(Z3_get_app_arg(C, ap, i), rs, depth + 1); if (!q) { PM[key] = nullptr; return nullptr; }
            if (k == Z3_OP_MUL) p = i == 0 ? *q : pmul(p, *q); else { bool neg = k == Z3_OP_UMINUS || (k == Z3_OP_SUB && i > 0); axpy(p, *q, neg ? -1 : 1, Mono()); } }
        }
      }
      if (atom) p.t.emplace(Mono{{vix(a), 1}}, 1);
    }
    p = reduce(p, rs); if (p.t.size() <= MAXT) res = std::make_shared<const Poly>(std::move(p));
  } catch (TooBig&) { }
  return PM[key] = res;
}
static Z3_ast toAst(const Poly& p) {
  Z3_sort rs = Z3_mk_real_sort(C); std::vector<Z3_ast> ts;
  for (auto& t : p.t) { std::vector<Z3_ast> f; if (t.second != 1 || t.first.empty()) f.push_back(hold(Z3_mk_numeral(C, t.second.get_str().c_str(), rs))); for (auto& v : t.first) for (int i = 0; i < v.second; i++) f.push_back(VAST[v.first]); ts.push_back(f.size() == 1 ? f[0] : hold(Z3_mk_mul(C, f.size(), f.data()))); }
  if (ts.empty()) return hold(Z3_mk_numeral(C, "0", rs));
  return ts.size() == 1 ? ts[0] : hold(Z3_mk_add(C, ts.size(), ts.data()));
}
static bool polyEnabled() { return REAL && !OPT["nopoly"]; }
Z3_ast polyNorm(State& S, Z3_ast a) {
  if (!polyEnabled()) return a;
  PolyP p = polyOf(a, S.rules.get()); if (!p) return a;
  size_t deg = 0; for (auto& t : p->t) deg += mdeg(t.first) + 1;
  static std::map<std::pair<int, std::string>, Z3_ast> rep;
  if (p->t.size() <= 1 || deg <= 24) {
    // a single-atom ast stays itself
    Z3_ast r = toAst(*p); int id = S.rules ? S.rules->id : 0; PM[{id, r}] = p; return r; }
  return a;
}
bool polyDiff(State& S, Z3_ast a, Z3_ast b, mpq_class& q, Z3_ast* diff) {   // true if a-b is a known constant q
  if (diff) *diff = nullptr;
  if (!polyEnabled()) return false;
  PolyP x = polyOf(a, S.rules.get()), y = polyOf(b, S.rules.get()); if (!x || !y) return false;
  try { Poly d = *x; axpy(d, *y, -1, Mono()); d = reduce(d, S.rules.get());
    if (d.t.empty()) { q = 0; return true; } if (d.t.size() == 1 && d.t.begin()->first.empty()) { q = d.t.begin()->second; return true; }
    if (diff && d.t.size() < 60) *diff = toAst(d);
  } catch (TooBig&) {}
  return false;
}
bool polyRatio(State& S, Z3_ast a, Z3_ast b, mpq_class& k) {   // true if a = k b
  if (!polyEnabled()) return false;
  PolyP x = polyOf(a, S.rules.get()), y = polyOf(b, S.rules.get()); if (!x || !y || y->t.empty() || x->t.size() != y->t.size()) return false;
  auto i = x->t.begin(); auto j = y->t.begin(); k = i->second / j->second; for (; i != x->t.end(); ++i, ++j) if (i->first != j->first || i->second != k * j->second) return false;
  return true;
}
static void complete(RuleSet& rs, std::vector<Poly> todo) {
  int iter = 0; 
  while (!todo.empty() && iter++ < 60) {
    // smallest first
    size_t bi = 0; for (size_t i = 1; i < todo.size(); i++) if (todo[i].t.size() < todo[bi].t.size()) bi = i;
    Poly f = todo[bi]; todo.erase(todo.begin() + bi);
    try { f = reduce(f, &rs); } catch (TooBig&) { continue; }
    if (f.t.empty()) continue;
    if (f.t.begin()->first.empty()) throw PathEnd{0, "contradictory equations"};
    if (f.t.size() > 40 || mdeg(f.t.begin()->first) > 8) continue;
    mpq_class lc = f.t.begin()->second; Rule r; r.lm = f.t.begin()->first; for (auto it = std::next(f.t.begin()); it != f.t.end(); ++it) r.tail.t.emplace(it->first, -it->second / lc);
    // inter-reduce
    std::vector<Rule> keep; Mono q;
    for (auto& o : rs.r) if (mdiv(o.lm, r.lm, q)) { Poly p = o.tail; for (auto& t : p.t) t.second = -t.second; p.t.emplace(o.lm, 1); todo.push_back(p); } else keep.push_back(o);
    rs.r = std::move(keep);
    if (rs.r.size() > 150) return;
    for (auto& o : rs.r) {
      bool share = false; for (auto& a : o.lm) for (auto& b : r.lm) if (a.first == b.first) share = true;
      if (!share) continue;
      // S-polynomial
      std::map<int, int> l; for (auto& a : o.lm) l[a.first] = a.second; for (auto& b : r.lm) l[b.first] = std::max(l[b.first], b.second);
      Mono lcm; for (auto it = l.rbegin(); it != l.rend(); ++it) lcm.push_back(*it);
      if (mdeg(lcm) > 7) continue; Mono m1, m2; mdiv(lcm, o.lm, m1); mdiv(lcm, r.lm, m2);
      try { Poly s; axpy(s, o.tail, 1, m1); axpy(s, r.tail, -1, m2); s = reduce(s, &rs); if (!s.t.empty() && s.t.size() <= 40) todo.push_back(s); } catch (TooBig&) {}
    }
    rs.r.push_back(r);
  }
}
void polyEq(State& S, Z3_ast a, Z3_ast b) {   // a == b holds on this path
  if (!polyEnabled()) return;
  PolyP x = polyOf(a, S.rules.get()), y = polyOf(b, S.rules.get()); if (!x || !y) return;
  Poly d; try { d = *x; axpy(d, *y, -1, Mono()); d = reduce(d, S.rules.get()); } catch (TooBig&) { return; }
  if (d.t.empty()) return;
  auto n = std::make_shared<RuleSet>(); if (S.rules) *n = *S.rules; n->id = RSID++;
  complete(*n, {d}); S.rules = n;
}
void polyAssume(State& S, Z3_ast c) {
  if (!polyEnabled() || Z3_get_ast_kind(C, c) != Z3_APP_AST) return;
  Z3_app ap = Z3_to_app(C, c); unsigned n = Z3_get_app_num_args(C, ap); Z3_decl_kind k = Z3_get_decl_kind(C, Z3_get_app_decl(C, ap));
  if (k == Z3_OP_AND) { for (unsigned i = 0; i < n; i++) polyAssume(S, Z3_get_app_arg(C, ap, i)); return; }
  if (k == Z3_OP_EQ && n == 2) { Z3_ast x = Z3_get_app_arg(C, ap, 0), y = Z3_get_app_arg(C, ap, 1); if (Z3_get_sort_kind(C, Z3_get_sort(C, x)) == Z3_REAL_SORT) polyEq(S, x, y); }
}
std::string polyDump(State& S) { std::string r; if (S.rules) for (auto& x : S.rules->r) { Poly l; l.t.emplace(x.lm, 1); r += std::string(Z3_ast_to_string(C, toAst(l))) + " -> " + Z3_ast_to_string(C, toAst(x.tail)) + "\n"; } return r; }

static bool hintSqrt(State& S, const Poly& p, Z3_ast* root);
bool polySqrt(State& S, Z3_ast a, Z3_ast* root) {   // a = root^2 as polynomials (root's sign unknown)
  if (!polyEnabled()) return false;
  PolyP p = polyOf(a, S.rules.get()); if (!p || p->t.empty() || p->t.size() > 60) return false;
  if (hintSqrt(S, *p, root)) return true;
  auto sq = [](const mpq_class& q, mpq_class& r) { if (q < 0) return false; mpz_class n = sqrt(q.get_num()), d = sqrt(q.get_den()); r = mpq_class(n, d); r.canonicalize(); return r * r == q; };
  auto& lt = *p->t.begin(); mpq_class c; if (!sq(lt.second, c)) return false; Mono m; for (auto& v : lt.first) { if (v.second % 2) return false; m.push_back({v.first, v.second / 2}); }
  try {
    Poly q; q.t.emplace(m, c); Poly r = *p; axpy(r, pmul(q, q), -1, Mono()); Mono lm = m; mpq_class lc = c;
    for (int i = 0; i < 12 && !r.t.empty(); i++) {
      Mono d; if (!mdiv(r.t.begin()->first, lm, d)) return false; mpq_class k = r.t.begin()->second / (2 * lc);
      Poly t; t.t.emplace(d, k); // r -= 2 q t + t^2
      Poly u = pmul(q, t); axpy(r, u, -2, Mono()); axpy(r, pmul(t, t), -1, Mono()); addTerm(q, d, k);
    }
    if (!r.t.empty()) return false; *root = toAst(q); return true;
  } catch (TooBig&) { return false; }
}

// hints from the harness: expressions whose (scaled) square may turn up under a root; checked, never trusted
static std::vector<Z3_ast> HINTS;
void polyHint(Z3_ast h) { HINTS.push_back(hold(h)); }
static bool hintSqrt(State& S, const Poly& p, Z3_ast* root) {
  for (auto h : HINTS) { PolyP r = polyOf(h, S.rules.get()); if (!r || r->t.empty()) continue;
    try { Poly sq = reduce(pmul(*r, *r), S.rules.get()); if (sq.t.empty() || sq.t.size() != p.t.size()) continue; auto a = p.t.begin(); auto b = sq.t.cbegin(); mpq_class k = a->second / b->second; bool ok = k > 0; for (; ok && a != p.t.end(); ++a, ++b) ok = a->first == b->first && a->second == k * b->second; if (!ok) continue;
      mpz_class n = sqrt(k.get_num()), d = sqrt(k.get_den()); mpq_class q(n, d); q.canonicalize(); if (q * q != k) continue; Poly o; axpy(o, *r, q, Mono()); *root = toAst(o); return true; } catch (TooBig&) {} }
  return false;
}
