#include "exec.hpp"
std::set<Z3_ast>& symWhole() { static std::set<Z3_ast> s; return s; }
#include <fstream>
#include <sstream>
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static const Val* arena(const Val& v) { return new Val(v); }
#define ENSURE(c, m) do { if (!(c)) throw Unsupported{m}; } while (0)

Exec::Exec(Module& m) : M(m), DL(m.getDataLayout()) { t0 = now(); }
FuncInfo* Exec::info(Function* f) {
  auto& p = fis[f]; if (p) return p.get();
  p.reset(new FuncInfo); FuncInfo* fi = p.get(); fi->f = f;
  for (auto& a : f->args()) fi->num[&a] = fi->n++;
  for (auto& bb : *f) for (auto& i : bb) if (!i.getType()->isVoidTy()) fi->num[&i] = fi->n++;
  fi->dem = demangle(f->getName().str());
  fi->huira = fi->dem.find("huira::") != std::string::npos;
  for (auto& s : skips) if (fi->dem.find(s) != std::string::npos) fi->skip = true;
  auto it = H.find(f->getName().str()); if (it != H.end() && (f->isDeclaration() || (f->getName() != "signal" && f->getName() != "getenv"))) fi->h = &it->second;
  return fi;
}
// ---------------------------------------------------------------------------- globals
void Exec::setupGlobals(State& S) {
  uint64_t a = 0x100000; 
  for (auto& f : M) { gaddr[&f] = a; faddr[a] = &f; a += 16; }
  a = 0x10000000;
  std::vector<std::pair<GlobalVariable*, ObjP>> todo;
  for (auto& g : M.globals()) {
    uint64_t sz = g.getValueType()->isSized() ? DL.getTypeAllocSize(g.getValueType()).getFixedValue() : 8;
    uint64_t al = std::max<uint64_t>(16, g.getAlign().valueOrOne().value());
    a = (a + al - 1) / al * al;
    bool ext = g.isDeclaration(); if (ext && sz < 256) sz = 256;
    ObjP o = std::make_shared<Obj>(); o->addr = a; o->size = sz; o->ro = g.isConstant() && !ext; o->name = g.getName().str(); o->by.resize(sz);
    gaddr[&g] = a; a += sz + 64;
    if (!ext) todo.push_back({&g, o});
    else for (auto& b : o->by) { b.t = 1; b.b = 0; }
    if (o->ro) gmem[o->addr] = o; else S.mem[o->addr] = o;
  }
  for (auto& al : M.aliases()) { const GlobalObject* b = al.getAliaseeObject(); if (b) gaddr[&al] = gaddr[b]; }
  for (auto& t : todo) initGlobal(&S, t.second, 0, t.first->getInitializer());
}
void Exec::initGlobal(State* S, ObjP o, uint64_t off, const Constant* c) {
  Type* t = c->getType(); uint64_t n = tsz(DL, t);
  if (isa<UndefValue>(c)) return;
  if (isa<ConstantAggregateZero>(c) || c->isNullValue()) { for (uint64_t i = 0; i < n && off + i < o->size; i++) { o->by[off + i].t = 1; o->by[off + i].b = 0; } return; }
  if (auto* s = dyn_cast<ConstantDataSequential>(c)) {
    if (s->isString()) { StringRef r = s->getAsString(); for (size_t i = 0; i < r.size(); i++) { o->by[off + i].t = 1; o->by[off + i].b = (uint8_t)r[i]; } return; }
    uint64_t es = DL.getTypeAllocSize(s->getElementType()).getFixedValue();
    for (unsigned i = 0; i < s->getNumElements(); i++) initGlobal(S, o, off + i * es, s->getElementAsConstant(i));
    return;
  }
  if (auto* s = dyn_cast<ConstantStruct>(c)) {
    const StructLayout* L = DL.getStructLayout(s->getType());
    for (unsigned i = 0; i < s->getNumOperands(); i++) initGlobal(S, o, off + L->getElementOffset(i).getFixedValue(), s->getOperand(i));
    return;
  }
  if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
    Type* et = isa<ConstantArray>(c) ? cast_or_null<ArrayType>(t)->getElementType() : cast_or_null<VectorType>(t)->getElementType();
    uint64_t es = DL.getTypeAllocSize(et).getFixedValue();
    for (unsigned i = 0; i < c->getNumOperands(); i++) initGlobal(S, o, off + i * es, llvm::cast<Constant>(c->getOperand(i)));
    return;
  }
  storeAt(*o, off, constant(*S, c), t);
}
// ---------------------------------------------------------------------------- constants/eval
static double apDouble(APFloat v) { bool l; v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); return v.convertToDouble(); }
Val Exec::constant(State& S, const Constant* c) {
  auto it = constCache.find(c); if (it != constCache.end()) return it->second;
  Val r; Type* t = c->getType(); bool cache = true;
  if (auto* i = dyn_cast<ConstantInt>(c)) {
    const APInt& v = i->getValue(); u128 x = v.getRawData()[0]; if (v.getNumWords() > 1) x |= (u128)v.getRawData()[1] << 64;
    r = vint(i->getBitWidth(), x);
  } else if (auto* f = dyn_cast<ConstantFP>(c)) {
    ENSURE(t->isFloatTy() || isDbl(t), "fp constant type");
    r = vfp(t->isFloatTy() ? 32 : 64, t->isFloatTy() ? f->getValueAPF().convertToFloat() : apDouble(f->getValueAPF()));
  } else if (isa<ConstantPointerNull>(c)) r = vint(64, 0);
  else if (isa<UndefValue>(c)) { r.k = VK::Undef; }
  else if (auto* gv = dyn_cast<GlobalValue>(c)) { auto g = gaddr.find(gv); ENSURE(g != gaddr.end(), "global addr"); r = vint(64, g->second); r.prov = g->second; }
  else if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? (unsigned)t->getArrayNumElements() : cast_or_null<FixedVectorType>(t)->getNumElements();
    auto v = std::make_shared<std::vector<Val>>(n);
    for (unsigned i = 0; i < n; i++) (*v)[i] = constant(S, c->getAggregateElement(i));
    r.k = VK::Agg; r.agg = v;
  } else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0); ENSURE(gep->accumulateConstantOffset(DL, off), "const gep");
      Val b = constant(S, llvm::cast<Constant>(gep->getPointerOperand()));
      r = vint(64, b.c + off.getZExtValue()); r.prov = b.prov;
    } else if (ce->isCast()) {
      Val a = constant(S, ce->getOperand(0)); r = cast(S, ce->getOpcode(), a, ce->getOperand(0)->getType(), t); r.prov = a.prov;
    } else {
      Val a = constant(S, ce->getOperand(0)), b = constant(S, ce->getOperand(1));
      if (ce->getOpcode() == Instruction::ICmp) r = icmp(S, ce->getPredicate(), a, b);
      else r = intBin(S, ce->getOpcode(), a, b);
    }
  } else throw Unsupported{"constant"};
  if (cache) constCache[c] = r;
  return r;
}
Val Exec::eval(State& S, const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return constant(S, c);
  Frame& f = S.st.back();
  auto it = f.fi->num.find(v); ENSURE(it != f.fi->num.end(), "eval of non-numbered value");
  return f.regs[it->second];
}
void Exec::setReg(State& S, const Instruction* I, const Val& v) { if (!I->getType()->isVoidTy()) { Frame& f = S.st.back(); f.regs[f.fi->num[I]] = v; } }
Val Exec::materialize(const Val& v, Type* t) {
  if (v.k != VK::Undef) return v;
  if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); return vsym(w, freshVar("undef", bvSort(w))); }
  if (t->isPointerTy()) return vint(64, 0xdead0000dead0000ULL);
  if (t->isFloatTy() || isDbl(t)) { unsigned w = t->isFloatTy() ? 32 : 64; return vfps(w, freshVar("undeff", REAL ? Z3_mk_real_sort(C) : fpSort(w))); }
  if (t->isVectorTy() || t->isStructTy() || t->isArrayTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? (unsigned)t->getArrayNumElements() : cast_or_null<FixedVectorType>(t)->getNumElements();
    auto a = std::make_shared<std::vector<Val>>(n); Val r; r.k = VK::Agg; r.agg = a; return r;   // elements undef
  }
  throw Unsupported{"materialize"};
}
// ---------------------------------------------------------------------------- decisions
// ---- ranges: closed intervals in outward-rounded doubles, plus "not zero"
static double dn(double x) { return x == 0 || std::isinf(x) ? x : std::nextafter(x, -INFINITY); }
static double up(double x) { return x == 0 || std::isinf(x) ? x : std::nextafter(x, INFINITY); }
Iv ivAdd(const Iv& a, const Iv& b) { Iv r; r.lo = a.lo == -INFINITY || b.lo == -INFINITY ? -INFINITY : dn(a.lo + b.lo); r.hi = a.hi == INFINITY || b.hi == INFINITY ? INFINITY : up(a.hi + b.hi); r.nz = (a.lo >= 0 && b.lo >= 0 && (a.nz || b.nz)) || (a.hi <= 0 && b.hi <= 0 && (a.nz || b.nz)); return r; }
Iv ivNeg(const Iv& a) { Iv r; r.lo = -a.hi; r.hi = -a.lo; r.nz = a.nz; return r; }
Iv ivMul(const Iv& a, const Iv& b) {
  Iv r; double lo = INFINITY, hi = -INFINITY;
  for (double x : {a.lo, a.hi}) for (double y : {b.lo, b.hi}) { double l, h; if (x == 0 || y == 0) l = h = 0; else { double p = x * y; if (std::isinf(p) && !std::isinf(x) && !std::isinf(y)) { l = p > 0 ? 1.7976931348623157e308 : p; h = p > 0 ? p : -1.7976931348623157e308; } else if (p == 0) { bool ps = (x > 0) == (y > 0); l = ps ? 0 : -5e-324; h = ps ? 5e-324 : 0; } else { l = dn(p); h = up(p); } } lo = std::min(lo, l); hi = std::max(hi, h); }
  r.lo = lo; r.hi = hi; r.nz = (a.nz || a.lo > 0 || a.hi < 0) && (b.nz || b.lo > 0 || b.hi < 0); return r; }
Iv ivSq(const Iv& a) { Iv r = ivMul(a, a); double m = std::max(std::fabs(a.lo), std::fabs(a.hi)); r.lo = a.lo > 0 ? std::max(0.0, dn(a.lo * a.lo)) : a.hi < 0 ? std::max(0.0, dn(a.hi * a.hi)) : 0; r.hi = std::isinf(m) ? INFINITY : m == 0 ? 0 : up(m * m); if (r.hi == 0 && m > 0) r.hi = 5e-324; return r; }
Iv ivRcp(const Iv& a) { Iv r; r.nz = true; if (a.pos()) { r.lo = std::isinf(a.hi) ? 0 : std::max(0.0, dn(1 / a.hi)); r.hi = a.lo > 0 ? up(1 / a.lo) : INFINITY; } else if (a.neg()) { Iv n = ivRcp(ivNeg(a)); r = ivNeg(n); r.nz = true; } return r; }
Iv ivSqrt(const Iv& a) { Iv r; r.lo = a.lo > 0 ? std::max(0.0, dn(std::sqrt(a.lo))) : 0; r.hi = a.hi <= 0 ? 0 : std::isinf(a.hi) ? INFINITY : up(std::sqrt(a.hi)); r.nz = a.nz || a.lo > 0; return r; }
Iv State::ivOf(const Val& v) const {
  Iv r; if (v.conc()) { if (v.sp == FIN && v.q) { double d = mpq2d(*v.q); mpq_class e(d); r.lo = e > *v.q ? dn(d) : d; r.hi = e < *v.q ? up(d) : d; r.nz = *v.q != 0; if (r.nz && d == 0) { r.lo = *v.q < 0 ? -5e-324 : 0; r.hi = *v.q > 0 ? 5e-324 : 0; } } return r; }
  if (iv && v.s) { auto i = iv->find(v.s); if (i != iv->end()) return i->second; } return r; }
void State::ivSet(Z3_ast a, const Iv& n) {
  if (!n.any()) return; if (iv) { auto i = iv->find(a); if (i != iv->end()) { const Iv& o = i->second; if (o.lo >= n.lo && o.hi <= n.hi && (o.nz || !n.nz)) return; } }
  if (!iv) iv = std::make_shared<std::unordered_map<Z3_ast, Iv>>(); else if (iv.use_count() > 1) iv = std::make_shared<std::unordered_map<Z3_ast, Iv>>(*iv);
  Iv& o = (*iv)[hold(a)]; o.lo = std::max(o.lo, n.lo); o.hi = std::min(o.hi, n.hi); o.nz = o.nz || n.nz || o.lo > 0 || o.hi < 0; }
static bool numeral(Z3_ast a, mpq_class& q) { if (Z3_get_ast_kind(C, a) == Z3_NUMERAL_AST) { q = mpq_class(Z3_get_numeral_string(C, a)); return true; } if (Z3_get_ast_kind(C, a) == Z3_APP_AST && Z3_get_decl_kind(C, Z3_get_app_decl(C, Z3_to_app(C, a))) == Z3_OP_UMINUS && numeral(Z3_get_app_arg(C, Z3_to_app(C, a), 0), q)) { q = -q; return true; } return false; }
void State::learn(Z3_ast c, bool pos) {   // c (or its negation) holds on this path
  if (Z3_get_ast_kind(C, c) != Z3_APP_AST) return; Z3_app ap = Z3_to_app(C, c); unsigned n = Z3_get_app_num_args(C, ap); Z3_decl_kind k = Z3_get_decl_kind(C, Z3_get_app_decl(C, ap));
  if (k == Z3_OP_NOT) return learn(Z3_get_app_arg(C, ap, 0), !pos);
  if ((k == Z3_OP_AND && pos) || (k == Z3_OP_OR && !pos)) { for (unsigned i = 0; i < n; i++) learn(Z3_get_app_arg(C, ap, i), pos); return; }
  if (n != 2 || (k != Z3_OP_LE && k != Z3_OP_GE && k != Z3_OP_LT && k != Z3_OP_GT && k != Z3_OP_EQ)) return;
  Z3_ast x = Z3_get_app_arg(C, ap, 0), y = Z3_get_app_arg(C, ap, 1); if (Z3_get_sort_kind(C, Z3_get_sort(C, x)) != Z3_REAL_SORT) return;
  if (!pos) { if (k == Z3_OP_LE) k = Z3_OP_GT; else if (k == Z3_OP_GE) k = Z3_OP_LT; else if (k == Z3_OP_LT) k = Z3_OP_GE; else if (k == Z3_OP_GT) k = Z3_OP_LE; }
  mpq_class b; if (numeral(x, b)) { std::swap(x, y); if (k == Z3_OP_LE) k = Z3_OP_GE; else if (k == Z3_OP_GE) k = Z3_OP_LE; else if (k == Z3_OP_LT) k = Z3_OP_GT; else if (k == Z3_OP_GT) k = Z3_OP_LT; } else if (!numeral(y, b)) return;
  for (int depth = 0; depth < 4; depth++) {   // x k b, then peel constants off x
    double d = mpq2d(b); mpq_class e(d); double lo = e > b ? dn(d) : d, hi = e < b ? up(d) : d; if (d == 0 && b != 0) { lo = -5e-324; hi = 5e-324; } Iv i; bool eq = k == Z3_OP_EQ;
    if (eq && !pos) { if (b == 0) i.nz = true; } else { if (k != Z3_OP_LE && k != Z3_OP_LT) { i.lo = lo; } if (k != Z3_OP_GE && k != Z3_OP_GT) { i.hi = hi; } if (b == 0 && (k == Z3_OP_LT || k == Z3_OP_GT)) i.nz = true; }
    ivSet(x, i); Z3_ast pn = polyNorm(*this, x); if (pn != x) ivSet(pn, i);
    if (Z3_get_ast_kind(C, x) != Z3_APP_AST) return; Z3_app xa = Z3_to_app(C, x); unsigned m = Z3_get_app_num_args(C, xa); Z3_decl_kind xk = Z3_get_decl_kind(C, Z3_get_app_decl(C, xa)); mpq_class q;
    if (xk == Z3_OP_UMINUS || (xk == Z3_OP_MUL && m == 2 && numeral(Z3_get_app_arg(C, xa, 0), q) && q != 0)) { if (xk == Z3_OP_UMINUS) { q = -1; x = Z3_get_app_arg(C, xa, 0); } else x = Z3_get_app_arg(C, xa, 1); b /= q; if (q < 0) { if (k == Z3_OP_LE) k = Z3_OP_GE; else if (k == Z3_OP_GE) k = Z3_OP_LE; else if (k == Z3_OP_LT) k = Z3_OP_GT; else if (k == Z3_OP_GT) k = Z3_OP_LT; } continue; }
    if (xk == Z3_OP_ADD) { std::vector<Z3_ast> rest; mpq_class sum = 0; bool any = false; for (unsigned j = 0; j < m; j++) { Z3_ast t = Z3_get_app_arg(C, xa, j); if (numeral(t, q)) { sum += q; any = true; } else rest.push_back(t); } if (!any || rest.empty()) return; b -= sum; x = rest.size() == 1 ? rest[0] : hold(Z3_mk_add(C, rest.size(), rest.data())); continue; }
    return;
  }
}
void Exec::addPC(State& S, Z3_ast c) { if (isTrue(c)) return; if (REAL) S.learn(c, true); S.pc.push_back(c); if (REAL) S.pendEq.push_back(c); }
void State::flushEq() { if (pendEq.empty()) return; auto p = std::move(pendEq); pendEq.clear(); for (auto c : p) polyAssume(*this, c); }
bool Exec::feasible(State& S, Z3_ast c) { return checkSat(S.pc, {c}, false, nullptr) != R::UNSAT; }
bool Exec::decide(State& S, Z3_ast cond) {
  if (S.decPos < S.dec.size()) return S.dec[S.decPos++].taken;
  Z3_ast sc = simp(cond);
  if (isTrue(sc)) return true; if (isFalse(sc)) return false;
  cond = sc;
  Z3_ast nc = mkNot(cond);
  bool f1 = feasible(S, cond);
  bool f0 = f1 ? feasible(S, nc) : true;
  bool take = f1;
  if (f1 && f0) {
    if (getenv("VPSE_FORK")) fprintf(stderr, "FORK %s %.200s\n", where(S).c_str(), Z3_ast_to_string(C, cond));
    auto o = std::make_unique<State>(S); o->dec.push_back({false, ""}); o->decPos = 0; addPC(*o, nc); o->forks++; work.push_back(std::move(o));
    addPC(S, cond); S.forks++;
  } // a one-sided branch adds nothing
  if (REAL && !(f1 && f0)) S.learn(cond, take);
  S.dec.push_back({take, ""}); S.decPos++;
  return take;
}
bool Exec::decideV(State& S, const Val& v0) {
  Val v = v0; if (v.k == VK::Undef) { v = vsym(1, freshVar("undef", bvSort(1))); unsup["branch on undef (both sides explored)"]++; }
  ENSURE(v.k == VK::Int && v.w == 1, "decide on non-bool");
  if (v.conc()) return v.c != 0;
  return decide(S, v.s);
}
mpz_class Exec::decideInt(State& S, Z3_ast e, bool isReal, int mode) {
  long cap = OPT["enumcap"]; long n = 0;
  auto eqOf = [&](const mpz_class& z) -> Z3_ast {
    if (!isReal) return hold(Z3_mk_eq(C, e, Z3_mk_numeral(C, z.get_str().c_str(), Z3_get_sort(C, e))));
    Z3_sort rs = Z3_mk_real_sort(C);
    mpz_class z1 = z + 1, zm = z - 1;
    Z3_ast lo, hi;
    if (mode == 1 || z > 0) { lo = Z3_mk_ge(C, e, Z3_mk_numeral(C, z.get_str().c_str(), rs)); hi = Z3_mk_lt(C, e, Z3_mk_numeral(C, z1.get_str().c_str(), rs)); }
    else if (z == 0) { lo = Z3_mk_gt(C, e, Z3_mk_numeral(C, "-1", rs)); hi = Z3_mk_lt(C, e, Z3_mk_numeral(C, "1", rs)); }
    else { lo = Z3_mk_gt(C, e, Z3_mk_numeral(C, zm.get_str().c_str(), rs)); hi = Z3_mk_le(C, e, Z3_mk_numeral(C, z.get_str().c_str(), rs)); }
    Z3_ast a[2] = {lo, hi}; return hold(Z3_mk_and(C, 2, a));
  };
  while (true) {
    if (S.decPos < S.dec.size()) { auto& d = S.dec[S.decPos++]; n++; if (d.taken) return mpz_class(d.val); continue; }
    if (n > cap) throw Unsupported{"integer enumeration cap"};
    Z3_ast key = freshVar("enum", Z3_get_sort(C, e));
    Z3_ast eq0 = hold(Z3_mk_eq(C, key, e));
    Assign a; R r = checkSat(S.pc, {eq0}, false, &a);
    if (r == R::UNSAT) throw PathEnd{0, "infeasible"};
    if (r == R::UNK || !a.count(key)) throw Unsupported{"integer enumeration: solver unknown"};
    mpz_class z;
    if (!isReal) z = mpz_class(Z3_get_numeral_string(C, a[key]));
    else {
      Z3_ast kv = a[key]; std::string s;
      if (Z3_is_algebraic_number(C, kv)) { s = Z3_get_numeral_decimal_string(C, kv, 15); if (s.back() == '?') s.pop_back(); double d = strtod(s.c_str(), nullptr); z = mpz_class(mode == 1 ? std::floor(d) : std::trunc(d)); }
      else { mpq_class q(Z3_get_numeral_string(C, kv)); q.canonicalize(); if (mode == 1) mpz_fdiv_q(z.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t()); else mpz_tdiv_q(z.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t()); }
    }
    Z3_ast eq = eqOf(z), ne = mkNot(eq);
    if (feasible(S, ne)) {
      auto o = std::make_unique<State>(S); o->dec.push_back({false, ""}); o->decPos = 0; addPC(*o, ne); work.push_back(std::move(o));
    }
    addPC(S, eq); S.dec.push_back({true, z.get_str()}); S.decPos++;
    return z;
  }
}
u128 Exec::concretize(State& S, const Val& v0) {
  Val v = v0; if (v.k == VK::Undef) throw Unsupported{"concretize undef"};
  ENSURE(v.k == VK::Int, "concretize non-int");
  if (v.conc()) return v.c;
  if (v.w == 1) return decide(S, v.s);
  if (getenv("VPSE_FORK")) fprintf(stderr, "CONC %s %.200s\n", where(S).c_str(), Z3_ast_to_string(C, v.s));
  mpz_class z = decideInt(S, v.s, false, 0);
  mpz_class lo = z & mpz_class("18446744073709551615"), hi = z >> 64;
  return ((u128)hi.get_ui() << 64) | lo.get_ui();
}
// ---------------------------------------------------------------------------- memory
ObjP Exec::alloc(State& S, uint64_t size, const std::string& name, bool stack) {
  ENSURE(size <= (uint64_t)OPT["maxalloc"], "allocation too large");
  ObjP o = std::make_shared<Obj>(); uint64_t& nx = stack ? S.nextStack : S.nextHeap;
  o->addr = nx; nx += (size + 15) / 16 * 16 + 64; o->size = size; o->name = name; o->by.resize(size);
  S.mem[o->addr] = o; return o;
}
ObjP Exec::find(State& S, uint64_t a) {
  auto f = [&](std::map<uint64_t, ObjP>& m) -> ObjP { auto it = m.upper_bound(a); if (it == m.begin()) return nullptr; --it; if (a <= it->first + it->second->size) return it->second; return nullptr; };
  if (a >= 0x10000000 && a < 0x1000000000ULL) { ObjP o = f(gmem); if (o && a < o->addr + o->size) return o; ObjP p = f(S.mem); if (p) return p; return o; }
  return f(S.mem);
}
Obj* Exec::wr(State& S, uint64_t base) {
  auto it = S.mem.find(base); ENSURE(it != S.mem.end(), "write to unknown object");
  if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
  return it->second.get();
}
void Exec::errorIf(State& S, Z3_ast cond, const std::string& label, const std::string& what) {
  // reports if cond is feasible; continues with !cond (or ends the path)
  Z3_ast sc = simp(cond); if (isFalse(sc)) return;
  R r = checkSat(S.pc, {sc}, true, nullptr);
  labels[label].reached++;
  if (r == R::UNSAT) { labels[label].discharged++; return; }
  if (r == R::UNK) labels[label].undecided++;
  else report(S, label, what, sc);
  Z3_ast nc = mkNot(sc);
  if (isFalse(nc) || !feasible(S, nc)) throw PathEnd{2, what};
  addPC(S, nc);
}
void Exec::memErr(State& S, const std::string& what, Z3_ast cond) {
  labels["memory-safety"].reached++;
  report(S, "memory-safety", what, cond);
  throw PathEnd{2, what};
}
Exec::Loc Exec::resolve(State& S, const Val& p, uint64_t n, bool write) {
  if (p.k == VK::Undef) memErr(S, "access through undefined pointer", hold(Z3_mk_true(C)));
  ENSURE(p.k == VK::Int, "pointer kind");
  if (p.conc()) {
    uint64_t a = (uint64_t)p.c; ObjP o = find(S, a);
    if (!o || !o->alive || a + n > o->addr + o->size || a + n < a) {
      std::string w = std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes ";
      if (a < 4096) w += "through null pointer"; else if (!o) w += "at wild address (outside every object)"; else if (!o->alive) w += "of freed object " + o->name; else w += "beyond object " + o->name + " size " + std::to_string(o->size) + " offset " + std::to_string((long)(a - o->addr));
      memErr(S, w, hold(Z3_mk_true(C)));
    }
    if (write && o->ro) memErr(S, "write to constant object " + o->name, hold(Z3_mk_true(C)));
    return {o, false, a - o->addr, nullptr};
  }
  uint64_t base = p.prov;
  if (!base) {
    Assign as; Z3_ast key = freshVar("ptr", bvSort(64)); R r = checkSat(S.pc, {hold(Z3_mk_eq(C, key, p.s))}, false, &as);
    ENSURE(r == R::SAT && as.count(key), "symbolic pointer");
    ObjP o = find(S, strtoull(valueStr(as[key]).c_str(), nullptr, 10));
    if (!o) memErr(S, "access at wild symbolic address", hold(Z3_mk_true(C)));
    base = o->addr;
  }
  ObjP o = find(S, base);
  if (!o || !o->alive) memErr(S, "access to freed/unknown object (symbolic)", hold(Z3_mk_true(C)));
  Z3_ast b = hold(Z3_mk_numeral(C, std::to_string(o->addr).c_str(), bvSort(64)));
  Z3_ast off = simp(Z3_mk_bvsub(C, p.s, b));
  Z3_ast oob;
  if (n > o->size) oob = Z3_mk_true(C);
  else oob = hold(Z3_mk_bvugt(C, off, Z3_mk_numeral(C, std::to_string(o->size - n).c_str(), bvSort(64))));
  if (S.decPos >= S.dec.size())
    errorIf(S, oob, "memory-safety", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes out of bounds of object " + o->name + " (size " + std::to_string(o->size) + ")");
  if (write && o->ro) memErr(S, "write to constant object " + o->name, hold(Z3_mk_true(C)));
  Val ov = vsym(64, off); if (ov.conc()) return {o, false, (uint64_t)ov.c, nullptr};
  return {o, true, 0, off};
}
std::vector<MB> Exec::toBytes(const Val& v, unsigned n) {
  std::vector<MB> r(n);
  if (v.k == VK::Undef) return r;
  if (v.k == VK::Bundle) { for (unsigned i = 0; i < n; i++) { if (i < v.by->size()) r[i] = (*v.by)[i]; else { r[i].t = 1; } } return r; }
  if (v.k == VK::Int) {
    if (v.conc()) { for (unsigned i = 0; i < n; i++) { r[i].t = 1; r[i].b = i < 16 ? (uint8_t)(v.c >> (8 * i)) : 0; } return r; }
    Val x = v;
    if (v.w != n * 8) {
      Z3_ast e; if (v.w == 1) e = Z3_mk_ite(C, v.s, Z3_mk_numeral(C, "1", bvSort(n * 8)), Z3_mk_numeral(C, "0", bvSort(n * 8))); else e = Z3_mk_zero_ext(C, n * 8 - v.w, v.s);
      x = vsym(n * 8, hold(e)); if (x.conc()) return toBytes(x, n);
    }
    const Val* p = arena(x); for (unsigned i = 0; i < n; i++) { r[i].t = 2; r[i].idx = i; r[i].v = p; } return r;
  }
  if (v.k == VK::FP) {
    if (v.conc() && (!REAL || v.sp != FIN)) {
      double d = v.d; if (REAL) d = v.sp == NaN_ ? NAN : v.sp == PINF ? INFINITY : -INFINITY;
      uint64_t b = 0; if (v.w == 32) { float f = (float)d; memcpy(&b, &f, 4); } else memcpy(&b, &d, 8);
      for (unsigned i = 0; i < n; i++) { r[i].t = 1; r[i].b = (uint8_t)(b >> (8 * i)); } return r;
    }
    const Val* p = arena(v); for (unsigned i = 0; i < n; i++) { r[i].t = 2; r[i].idx = i; r[i].v = p; } return r;
  }
  throw Unsupported{"toBytes"};
}
static bool boolOfExt(Z3_ast s, Z3_ast& b) { // ite(b,1,0)
  if (Z3_get_ast_kind(C, s) != Z3_APP_AST) return false; Z3_app a = Z3_to_app(C, s);
  if (Z3_get_decl_kind(C, Z3_get_app_decl(C, a)) != Z3_OP_ITE) return false;
  Z3_ast x = Z3_get_app_arg(C, a, 1), y = Z3_get_app_arg(C, a, 2);
  if (Z3_get_ast_kind(C, x) != Z3_NUMERAL_AST || Z3_get_ast_kind(C, y) != Z3_NUMERAL_AST) return false;
  std::string xs = Z3_get_numeral_string(C, x), ys = Z3_get_numeral_string(C, y);
  if (xs == "1" && ys == "0") { b = Z3_get_app_arg(C, a, 0); return true; }
  if (xs == "0" && ys == "1") { b = mkNot(Z3_get_app_arg(C, a, 0)); return true; }
  return false;
}
static Val truncTo(const Val& v, unsigned w) {
  if (v.w == w) return v;
  if (v.conc()) return vint(w, v.c);
  if (w == 1) { Z3_ast b; if (boolOfExt(v.s, b)) return vsym(1, b); return vsym(1, simp(Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, v.s), Z3_mk_numeral(C, "1", bvSort(1) ? Z3_mk_bv_sort(C, 1) : nullptr)))); }
  return vsym(w, simp(Z3_mk_extract(C, w - 1, 0, v.s)));
}
Val Exec::bytesTo(State& S, const std::vector<MB>& b, Type* t) {
  unsigned n = b.size(); Val u;
  bool isfp = t->isFloatTy() || isDbl(t);
  unsigned w = t->isPointerTy() ? 64 : t->isIntegerTy() ? t->getIntegerBitWidth() : isfp ? n * 8 : 0; ENSURE(w, "load type");
  bool allc = true, allu = true, same = b[0].t == 2 && b[0].idx == 0, anyfp = false, anyu = false;
  for (unsigned i = 0; i < n; i++) {
    if (b[i].t != 1) allc = false; if (b[i].t != 0) allu = false; else anyu = true;
    if (b[i].t != 2 || b[i].v != b[0].v || b[i].idx != i) same = false;
    if (b[i].t == 2 && b[i].v->k == VK::FP) anyfp = true;
  }
  if (allu) return u;
  if (same) {
    const Val& v = *b[0].v;
    if (v.k == VK::FP && isfp && v.w == w) return v;
    if (v.k == VK::Int && !isfp && v.w == n * 8) { Val r = truncTo(v, w); if (w == 64) r.prov = v.prov; return r; }
  }
  if (allc) {
    u128 x = 0; for (unsigned i = 0; i < n && i < 16; i++) x |= (u128)b[i].b << (8 * i);
    if (!isfp) return vint(w, x);
    if (w == 32) { uint32_t y = (uint32_t)x; float f; memcpy(&f, &y, 4); return vfp(32, f); }
    uint64_t y = (uint64_t)x; double d; memcpy(&d, &y, 8); return vfp(64, d);
  }
  if (anyfp && REAL) {
    if (isfp) throw Unsupported{"float load from mixed bytes (real mode)"};
    // concrete rational: nearest float bits
    std::vector<MB> c(b); bool ok = true;
    for (auto& m : c) if (m.t == 2 && m.v->k == VK::FP) {
      if (m.v->conc()) { double d = mpq2d(*m.v->q); uint64_t bits = 0; if (m.v->w == 32) { float f = (float)d; memcpy(&bits, &f, 4); } else memcpy(&bits, &d, 8); uint8_t by = (uint8_t)(bits >> (8 * m.idx)); (void)by; }
      else ok = false;
    }
    (void)ok;
    Val r; r.k = VK::Bundle; r.w = w; r.by = std::make_shared<const std::vector<MB>>(b); return r;
  }
  // build by concatenation
  Z3_ast acc = nullptr;
  for (unsigned i = 0; i < n;) {
    Z3_ast piece; unsigned len = 1;
    if (b[i].t == 1) { piece = Z3_mk_numeral(C, std::to_string(b[i].b).c_str(), bvSort(8)); }
    else if (b[i].t == 0) piece = freshVar("undefb", bvSort(8));
    else {
      Val v = *b[i].v; if (v.k == VK::FP) v = fp2bits(v);
      ENSURE(v.k == VK::Int, "byte of non-int");
      while (i + len < n && b[i + len].t == 2 && b[i + len].v == b[i].v && b[i + len].idx == b[i].idx + len) len++;
      Z3_ast a = astOf(v); unsigned hi = (b[i].idx + len) * 8 - 1; if (v.w == 1) throw Unsupported{"bool byte"};
      piece = (b[i].idx == 0 && hi == v.w - 1u) ? a : Z3_mk_extract(C, hi, b[i].idx * 8, a);
    }
    hold(piece); acc = acc ? hold(Z3_mk_concat(C, piece, acc)) : piece; i += len;
  }
  Val r = vsym(n * 8, simp(acc));
  if (isfp) return bits2fp(r);
  return truncTo(r, w);
}
Val Exec::loadAt(State& S, const Obj& o, uint64_t off, Type* t) {
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    Val r; r.k = VK::Agg; auto v = std::make_shared<std::vector<Val>>();
    if (auto* st = dyn_cast<StructType>(t)) { auto* L = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) v->push_back(loadAt(S, o, off + L->getElementOffset(i).getFixedValue(), st->getElementType(i))); }
    else { Type* et = t->isArrayTy() ? t->getArrayElementType() : cast_or_null<FixedVectorType>(t)->getElementType(); unsigned n = t->isArrayTy() ? (unsigned)t->getArrayNumElements() : cast_or_null<FixedVectorType>(t)->getNumElements(); uint64_t es = DL.getTypeAllocSize(et).getFixedValue(); for (unsigned i = 0; i < n; i++) v->push_back(loadAt(S, o, off + i * es, et)); }
    r.agg = v; return r;
  }
  uint64_t n = tsz(DL, t);
  std::vector<MB> b(o.by.begin() + off, o.by.begin() + off + n);
  return bytesTo(S, b, t);
}
void Exec::storeAt(Obj& o, uint64_t off, const Val& v, Type* t) {
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    auto get = [&](unsigned i) { return v.k == VK::Agg ? (*v.agg)[i] : Val(); };
    if (v.k != VK::Agg && v.k != VK::Undef) throw Unsupported{"store agg"};
    if (auto* st = dyn_cast<StructType>(t)) { auto* L = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeAt(o, off + L->getElementOffset(i).getFixedValue(), get(i), st->getElementType(i)); }
    else { Type* et = t->isArrayTy() ? t->getArrayElementType() : cast_or_null<FixedVectorType>(t)->getElementType(); unsigned n = t->isArrayTy() ? (unsigned)t->getArrayNumElements() : cast_or_null<FixedVectorType>(t)->getNumElements(); uint64_t es = DL.getTypeAllocSize(et).getFixedValue(); for (unsigned i = 0; i < n; i++) storeAt(o, off + i * es, get(i), et); }
    return;
  }
  uint64_t n = tsz(DL, t);
  std::vector<MB> b = toBytes(v, (unsigned)n);
  std::copy(b.begin(), b.end(), o.by.begin() + off);
}
Val Exec::load(State& S, const Val& p, Type* t) {
  uint64_t n = tsz(DL, t);
  Loc l = resolve(S, p, n, false);
  if (!l.sym) return loadAt(S, *l.o, l.off, t);
  bool scalar = t->isIntegerTy() || t->isFloatTy() || isDbl(t);
  long slots = (long)(l.o->size / n);
  if (scalar && slots <= OPT["itecap"] && S.decPos >= S.dec.size()) {
    // aligned ITE chain
    uint64_t al = n; std::string nstr = std::to_string(al);
    Z3_ast rem = hold(Z3_mk_bvurem(C, l.soff, Z3_mk_numeral(C, nstr.c_str(), bvSort(64))));
    // learn the residue from one model, then verify it is fixed
    Assign as; Z3_ast key = freshVar("rem", bvSort(64));
    R r0 = checkSat(S.pc, {hold(Z3_mk_eq(C, key, l.soff))}, false, &as);
    uint64_t r = 0; bool okr = r0 == R::SAT && as.count(key);
    if (okr) r = strtoull(valueStr(as[key]).c_str(), nullptr, 10) % al;
    bool fixed = okr && (al == 1 || checkSat(S.pc, {hold(Z3_mk_not(C, Z3_mk_eq(C, rem, Z3_mk_numeral(C, std::to_string(r).c_str(), bvSort(64)))))}, false, nullptr) == R::UNSAT);
    if (fixed) {
      try {
        Val acc; bool first = true; bool bad = false;
        for (uint64_t o = r; o + n <= l.o->size; o += al) {
          Val v = materialize(loadAt(S, *l.o, o, t), t);
          if (v.k == VK::Bundle || (v.k == VK::FP && REAL && v.sp != FIN)) { bad = true; break; }
          if (first) { acc = v; first = false; continue; }
          Z3_ast cnd = hold(Z3_mk_eq(C, l.soff, Z3_mk_numeral(C, std::to_string(o).c_str(), bvSort(64))));
          if (v.k == VK::Int) acc = vsym(v.w, hold(Z3_mk_ite(C, cnd, astOf(v), astOf(acc))));
          else acc = vfps(v.w, hold(Z3_mk_ite(C, cnd, REAL ? realOf(v) : fpOf(v), REAL ? realOf(acc) : fpOf(acc))));
        }
        if (!bad && !first) return acc;
      } catch (Unsupported&) {}
    }
  }
  uint64_t off = (uint64_t)concretize(S, vsym(64, l.soff));
  return loadAt(S, *l.o, off, t);
}
void Exec::store(State& S, const Val& p, const Val& v, Type* t) {
  uint64_t n = tsz(DL, t);
  Loc l = resolve(S, p, n, true);
  uint64_t off = l.off;
  if (l.sym) off = (uint64_t)concretize(S, vsym(64, l.soff));
  storeAt(*wr(S, l.o->addr), off, v, t);
}
void Exec::memcpy_(State& S, const Val& d, const Val& s, uint64_t n) {
  if (!n) return;
  Loc ls = resolve(S, s, n, false); Loc ld = resolve(S, d, n, true);
  uint64_t so = ls.sym ? (uint64_t)concretize(S, vsym(64, ls.soff)) : ls.off, dof = ld.sym ? (uint64_t)concretize(S, vsym(64, ld.soff)) : ld.off;
  std::vector<MB> tmp(ls.o->by.begin() + so, ls.o->by.begin() + so + n);
  Obj* o = wr(S, ld.o->addr); std::copy(tmp.begin(), tmp.end(), o->by.begin() + dof);
}
MB Exec::loadB(State& S, uint64_t a) { Loc l = resolve(S, vint(64, a), 1, false); return l.o->by[l.off]; }
uint64_t Exec::loadPtr(State& S, uint64_t a) { Loc l = resolve(S, vint(64, a), 8, false); Val v = loadAt(S, *l.o, l.off, PointerType::get(M.getContext(), 0)); ENSURE(v.k == VK::Int && v.conc(), "symbolic pointer load"); return (uint64_t)v.c; }
std::string Exec::cstr(State& S, uint64_t a) { std::string r; while (r.size() < 4000) { MB b = loadB(S, a++); if (b.t != 1) { r += '?'; continue; } if (!b.b) break; r += (char)b.b; } return r; }
// ---------------------------------------------------------------------------- int arithmetic
Val Exec::bits2fp(const Val& i) {
  unsigned w = i.w;
  if (i.k == VK::Bundle) { ENSURE((*i.by)[0].t == 2 && (*i.by)[0].v->k == VK::FP && (*i.by)[0].idx == 0 && (*i.by)[0].v->w == w && i.by->size() == w / 8, "bundle bitcast"); return *(*i.by)[0].v; }
  if (i.conc()) { if (w == 32) { uint32_t y = (uint32_t)i.c; float f; memcpy(&f, &y, 4); return vfp(32, f); } uint64_t y = (uint64_t)i.c; double d; memcpy(&d, &y, 8); return vfp(64, d); }
  ENSURE(!REAL, "symbolic bits to real");
  static std::map<Z3_ast, Z3_ast> memo; auto& m = memo[i.s]; if (!m) m = hold(Z3_mk_fpa_to_fp_bv(C, i.s, fpSort(w)));
  return vfps(w, m);
}
Val Exec::fp2bits(const Val& f) {
  if (f.conc() && (!REAL || f.sp != FIN || true)) {
    double d = REAL ? (f.sp == FIN ? mpq2d(*f.q) : f.sp == NaN_ ? NAN : f.sp == PINF ? INFINITY : -INFINITY) : f.d; uint64_t b = 0;
    if (f.w == 32) { float x = (float)d; memcpy(&b, &x, 4); } else memcpy(&b, &d, 8);
    return vint(f.w, b);
  }
  if (REAL) { Val r; r.k = VK::Bundle; r.w = f.w; r.by = std::make_shared<const std::vector<MB>>(toBytes(f, f.w / 8)); return r; }
  // peel to_fp(bv)
  if (Z3_get_ast_kind(C, f.s) == Z3_APP_AST) { Z3_app a = Z3_to_app(C, f.s); if (Z3_get_decl_kind(C, Z3_get_app_decl(C, a)) == Z3_OP_FPA_TO_FP && Z3_get_app_num_args(C, a) == 1) { Z3_ast x = Z3_get_app_arg(C, a, 0); if (Z3_get_sort_kind(C, Z3_get_sort(C, x)) == Z3_BV_SORT) return vsym(f.w, x); } }
  static std::map<Z3_ast, Z3_ast> memo; auto& m = memo[f.s]; if (!m) m = hold(Z3_mk_fpa_to_ieee_bv(C, f.s));
  return vsym(f.w, m);
}
Val Exec::intBin(State& S, unsigned op, const Val& a0, const Val& b0) {
  Val a = a0, b = b0; unsigned w = a.w ? a.w : b.w;
  if (a.k == VK::Bundle || b.k == VK::Bundle) {
    if (a.k == VK::Bundle && b.k == VK::Int && b.conc()) {
      if (op == Instruction::LShr && b.c % 8 == 0) { std::vector<MB> v(a.by->begin() + (size_t)(b.c / 8), a.by->end()); MB z; z.t = 1; while (v.size() < a.by->size()) v.push_back(z); Val r = a; r.by = std::make_shared<const std::vector<MB>>(v); return r; }
      if (op == Instruction::Shl && b.c % 8 == 0) { MB z; z.t = 1; std::vector<MB> v((size_t)(b.c / 8), z); for (auto& x : *a.by) if (v.size() < a.by->size()) v.push_back(x); Val r = a; r.by = std::make_shared<const std::vector<MB>>(v); return r; }
      if (op == Instruction::And) { std::vector<MB> v(*a.by); bool ok = true; for (size_t i = 0; i < v.size(); i++) { uint8_t m = (uint8_t)(b.c >> (8 * i)); if (m == 0) { v[i] = MB(); v[i].t = 1; } else if (m != 0xff) ok = false; } if (ok) { Val r = a; r.by = std::make_shared<const std::vector<MB>>(v); return r; } }
    }
    if (op == Instruction::Or) {
      auto A = toBytes(a, w / 8), B = toBytes(b, w / 8); bool ok = true; std::vector<MB> v(A.size());
      for (size_t i = 0; i < A.size(); i++) { if (A[i].t == 1 && !A[i].b) v[i] = B[i]; else if (B[i].t == 1 && !B[i].b) v[i] = A[i]; else ok = false; }
      if (ok) { Val r; r.k = VK::Bundle; r.w = w; r.by = std::make_shared<const std::vector<MB>>(v); return r; }
    }
    throw Unsupported{"integer op on real-valued bits"};
  }
  if (a.k == VK::Undef) a = vsym(w, freshVar("undef", bvSort(w))); if (b.k == VK::Undef) b = vsym(w, freshVar("undef", bvSort(w)));
  ENSURE(a.k == VK::Int && b.k == VK::Int, "intBin kinds");
  uint64_t prov = 0; if (op == Instruction::Add || op == Instruction::Sub) { if (a.prov && !b.prov) prov = a.prov; else if (b.prov && !a.prov && op == Instruction::Add) prov = b.prov; }
  if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
    Z3_ast z = b.conc() ? (b.c ? hold(Z3_mk_false(C)) : hold(Z3_mk_true(C))) : hold(Z3_mk_eq(C, b.s, astOf(vint(w, 0))));
    if (S.decPos >= S.dec.size()) errorIf(S, z, "memory-safety", "integer division by zero");
  }
  if (a.conc() && b.conc()) {
    u128 x = a.c, y = b.c, r = 0; i128 sx = sext128(x, w), sy = sext128(y, w);
    switch (op) {
      case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
      case Instruction::UDiv: r = x / y; break; case Instruction::URem: r = x % y; break;
      case Instruction::SDiv: r = sy == -1 ? (u128)0 - x : (u128)(sx / sy); break; case Instruction::SRem: r = sy == -1 ? 0 : (u128)(sx % sy); break;
      case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
      case Instruction::Shl: r = y >= w ? 0 : x << (unsigned)y; break; case Instruction::LShr: r = y >= w ? 0 : x >> (unsigned)y; break;
      case Instruction::AShr: r = (u128)(sx >> (unsigned)(y >= w ? w - 1 : y)); break;
      default: throw Unsupported{"int op"};
    }
    Val v = vint(w, r); v.prov = prov; return v;
  }
  Z3_ast x = astOf(a), y = astOf(b), r = nullptr;
  if (w == 1) {
    Z3_ast v[2] = {x, y};
    switch (op) {
      case Instruction::And: case Instruction::Mul: r = Z3_mk_and(C, 2, v); break; case Instruction::Or: r = Z3_mk_or(C, 2, v); break;
      case Instruction::Xor: case Instruction::Add: case Instruction::Sub: r = Z3_mk_xor(C, x, y); break; default: throw Unsupported{"i1 op"};
    }
    return vsym(1, simp(r));
  }
  switch (op) {
    case Instruction::Add: r = Z3_mk_bvadd(C, x, y); break; case Instruction::Sub: r = Z3_mk_bvsub(C, x, y); break; case Instruction::Mul: r = Z3_mk_bvmul(C, x, y); break;
    case Instruction::UDiv: r = Z3_mk_bvudiv(C, x, y); break; case Instruction::URem: r = Z3_mk_bvurem(C, x, y); break;
    case Instruction::SDiv: r = Z3_mk_bvsdiv(C, x, y); break; case Instruction::SRem: r = Z3_mk_bvsrem(C, x, y); break;
    case Instruction::And: r = Z3_mk_bvand(C, x, y); break; case Instruction::Or: r = Z3_mk_bvor(C, x, y); break; case Instruction::Xor: r = Z3_mk_bvxor(C, x, y); break;
    case Instruction::Shl: r = Z3_mk_bvshl(C, x, y); break; case Instruction::LShr: r = Z3_mk_bvlshr(C, x, y); break; case Instruction::AShr: r = Z3_mk_bvashr(C, x, y); break;
    default: throw Unsupported{"int op"};
  }
  Val v = vsym(w, simp(r)); v.prov = prov; return v;
}
Val Exec::icmp(State& S, unsigned p, const Val& a0, const Val& b0) {
  Val a = a0, b = b0; unsigned w = a.w ? a.w : b.w;
  if (a.k == VK::Undef && b.k == VK::Undef) return Val();
  if (a.k == VK::Bundle && b.k == VK::Int && b.conc()) {
    // sign test of a real: last byte belongs to an FP value's top byte
    const MB& t = a.by->back();
    if (t.t == 2 && t.v->k == VK::FP && t.idx == t.v->w / 8 - 1 && (p == CmpInst::ICMP_SLT && b.c == 0)) return fcmp(S, CmpInst::FCMP_OLT, *t.v, vfp(t.v->w, 0));
    if (t.t == 2 && t.v->k == VK::FP && t.idx == t.v->w / 8 - 1 && (p == CmpInst::ICMP_SGT && sext128(b.c, w) == -1)) return fcmp(S, CmpInst::FCMP_OGE, *t.v, vfp(t.v->w, 0));
  }
  if (a.k == VK::Bundle || b.k == VK::Bundle) {
    auto A = toBytes(a, w / 8), B = toBytes(b, w / 8); bool eq = true; for (size_t i = 0; i < A.size(); i++) if (A[i].t != B[i].t || A[i].b != B[i].b || A[i].v != B[i].v || A[i].idx != B[i].idx) eq = false;
    if (eq && p == CmpInst::ICMP_EQ) return vint(1, 1); if (eq && p == CmpInst::ICMP_NE) return vint(1, 0);
    throw Unsupported{"integer compare on real-valued bits"};
  }
  if (a.k == VK::Undef) a = vsym(w, freshVar("undef", bvSort(w))); if (b.k == VK::Undef) b = vsym(w, freshVar("undef", bvSort(w)));
  ENSURE(a.k == VK::Int && b.k == VK::Int, "icmp kinds");
  if (a.conc() && b.conc()) {
    u128 x = a.c, y = b.c; i128 sx = sext128(x, w), sy = sext128(y, w); bool r = false;
    switch (p) {
      case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break;
      case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; default: throw Unsupported{"icmp"};
    }
    return vint(1, r);
  }
  if (w == 1) {
    Z3_ast x = astOf(a), y = astOf(b), r;
    switch (p) { case CmpInst::ICMP_EQ: r = Z3_mk_iff(C, x, y); break; case CmpInst::ICMP_NE: r = Z3_mk_xor(C, x, y); break;
      case CmpInst::ICMP_ULT: { Z3_ast v[2] = {Z3_mk_not(C, x), y}; r = Z3_mk_and(C, 2, v); break; } case CmpInst::ICMP_UGT: { Z3_ast v[2] = {x, Z3_mk_not(C, y)}; r = Z3_mk_and(C, 2, v); break; }
      default: throw Unsupported{"icmp i1"}; }
    return vsym(1, simp(r));
  }
  // ite(b,1,0) ==/!= const
  if ((p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) && (a.conc() || b.conc())) {
    const Val& sv = a.conc() ? b : a; const Val& cv = a.conc() ? a : b; Z3_ast bb;
    if (boolOfExt(sv.s, bb)) { bool one = cv.c == 1, zero = cv.c == 0; if (one || zero) { bool pos = (one == (p == CmpInst::ICMP_EQ)); return vsym(1, pos ? bb : mkNot(bb)); } return vint(1, p == CmpInst::ICMP_NE); }
  }
  Z3_ast x = astOf(a), y = astOf(b), r;
  switch (p) {
    case CmpInst::ICMP_EQ: r = Z3_mk_eq(C, x, y); break; case CmpInst::ICMP_NE: r = Z3_mk_not(C, Z3_mk_eq(C, x, y)); break;
    case CmpInst::ICMP_ULT: r = Z3_mk_bvult(C, x, y); break; case CmpInst::ICMP_ULE: r = Z3_mk_bvule(C, x, y); break; case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(C, x, y); break; case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(C, x, y); break;
    case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(C, x, y); break; case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(C, x, y); break; case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(C, x, y); break; case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(C, x, y); break;
    default: throw Unsupported{"icmp"};
  }
  return vsym(1, simp(r));
}
// ---------------------------------------------------------------------------- FP arithmetic
static int sgn_q(const mpq_class& q) { return sgn(q); }
static bool isZeroQ(const Val& v) { return v.conc() && v.sp == FIN && *v.q == 0; }
Val Exec::fneg(const Val& a) {
  if (REAL) {
    if (a.conc()) { if (a.sp == FIN) return vfpq(a.w, -*a.q); return vfpsp(a.w, a.sp == NaN_ ? NaN_ : a.sp == PINF ? NINF : PINF); }
    return vfps(a.w, simp(Z3_mk_unary_minus(C, a.s)));
  }
  if (a.conc()) return vfp(a.w, -a.d);
  return vfps(a.w, hold(Z3_mk_fpa_neg(C, a.s)));
}
Val Exec::recip(State& S, const Val& b) {   // 1/b, b symbolic known nonzero on this path
  static std::unordered_map<Z3_ast, Z3_ast> memo;
  auto& r = memo[b.s];
  if (!r) {
    r = freshVar("rcp", Z3_mk_real_sort(C)); Z3_ast m[2] = {b.s, r};
    Z3_ast one = Z3_mk_numeral(C, "1", Z3_mk_real_sort(C)), zero = Z3_mk_numeral(C, "0", Z3_mk_real_sort(C));
    // definitional & total: b=0 or b*r=1
    Z3_ast d[2] = {Z3_mk_eq(C, b.s, zero), Z3_mk_eq(C, Z3_mk_mul(C, 2, m), one)};
    addAxiom(r, Z3_mk_or(C, 2, d));
  }
  { Z3_ast m[2] = {b.s, r}; S.pendEq.push_back(hold(Z3_mk_eq(C, hold(Z3_mk_mul(C, 2, m)), hold(Z3_mk_numeral(C, "1", Z3_mk_real_sort(C)))))); }
  return vfps(b.w, r);
}
Val Exec::fpBin(State& S, unsigned op, const Val& a, const Val& b) {
  static const bool SL = OPT["slice"] != 0;
  if (SL && REAL && a.k == VK::FP && b.k == VK::FP && a.conc() && b.conc() && a.sp == FIN && b.sp == FIN) {   // slices: concrete subterms in double precision
    double x = mpq2d(*a.q), y = mpq2d(*b.q), r; bool ok = true;
    switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; ok = y != 0; break; default: ok = false; }
    if (ok && std::isfinite(r)) return vfp(a.w ? a.w : b.w, r);
  }
  unsigned w = a.w ? a.w : b.w;
  if (a.k == VK::Undef || b.k == VK::Undef) { Val x = a.k == VK::Undef ? vfps(w, freshVar("undeff", REAL ? Z3_mk_real_sort(C) : fpSort(w))) : a, y = b.k == VK::Undef ? vfps(w, freshVar("undeff", REAL ? Z3_mk_real_sort(C) : fpSort(w))) : b; return fpBin(S, op, x, y); }
  ENSURE(a.k == VK::FP && b.k == VK::FP, "fpBin kinds");
  if (!REAL) {
    if (a.conc() && b.conc()) {
      double r;
      if (w == 32) { float x = (float)a.d, y = (float)b.d, z; switch (op) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; case Instruction::FRem: z = fmodf(x, y); break; default: throw Unsupported{"fp op"}; } r = z; }
      else { double x = a.d, y = b.d; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmod(x, y); break; default: throw Unsupported{"fp op"}; } }
      return vfp(w, r);
    }
    Z3_ast rm = Z3_mk_fpa_rne(C), x = fpOf(a), y = fpOf(b), r;
    switch (op) {
      case Instruction::FAdd: r = Z3_mk_fpa_add(C, rm, x, y); break; case Instruction::FSub: r = Z3_mk_fpa_sub(C, rm, x, y); break; case Instruction::FMul: r = Z3_mk_fpa_mul(C, rm, x, y); break;
      case Instruction::FDiv: r = Z3_mk_fpa_div(C, rm, x, y); break; default: throw Unsupported{"fp op symbolic frem"};
    }
    return vfps(w, hold(r));
  }
  // exact reals with NaN / infinities
  if ((a.conc() && a.sp == NaN_) || (b.conc() && b.sp == NaN_)) return vfpsp(w, NaN_);
  bool ai = a.conc() && a.sp != FIN, bi = b.conc() && b.sp != FIN;
  auto sgn = [&](const Val& v) -> int { // sign with forking
    if (v.conc()) { if (v.sp == PINF) return 1; if (v.sp == NINF) return -1; return sgn_q(*v.q); }
    Z3_ast z = Z3_mk_numeral(C, "0", Z3_mk_real_sort(C));
    if (decide(S, hold(Z3_mk_gt(C, v.s, z)))) return 1; if (decide(S, hold(Z3_mk_lt(C, v.s, z)))) return -1; return 0;
  };
  if (ai || bi) {
    switch (op) {
      case Instruction::FAdd: if (ai && bi) return a.sp == b.sp ? a : vfpsp(w, NaN_); return vfpsp(w, ai ? a.sp : b.sp);
      case Instruction::FSub: { Val nb = fneg(b); return fpBin(S, Instruction::FAdd, a, nb); }
      case Instruction::FMul: { int s = sgn(a) * sgn(b); return s == 0 ? vfpsp(w, NaN_) : vfpsp(w, s > 0 ? PINF : NINF); }
      case Instruction::FDiv: if (ai && bi) return vfpsp(w, NaN_); if (bi) return vfpq(w, 0); { int s = sgn(a) * (sgn(b) < 0 ? -1 : 1); return vfpsp(w, s > 0 ? PINF : NINF); }
      default: throw Unsupported{"frem inf"};
    }
  }
  if (a.conc() && b.conc()) {
    switch (op) {
      case Instruction::FAdd: return vfpq(w, *a.q + *b.q); case Instruction::FSub: return vfpq(w, *a.q - *b.q); case Instruction::FMul: return vfpq(w, *a.q * *b.q);
      case Instruction::FDiv: if (*b.q == 0) return *a.q == 0 ? vfpsp(w, NaN_) : vfpsp(w, *a.q > 0 ? PINF : NINF); return vfpq(w, *a.q / *b.q);
      case Instruction::FRem: { if (*b.q == 0) return vfpsp(w, NaN_); mpq_class t = *a.q / *b.q; mpz_class z; mpz_tdiv_q(z.get_mpz_t(), t.get_num().get_mpz_t(), t.get_den().get_mpz_t()); return vfpq(w, *a.q - z * *b.q); }
      default: throw Unsupported{"fp op"};
    }
  }
  Z3_ast xy[2];
  switch (op) {
    case Instruction::FAdd: if (isZeroQ(a)) { Val r = b; r.w = w; return r; } if (isZeroQ(b)) return a; xy[0] = realOf(a); xy[1] = realOf(b); { Val r = vfps(w, polyNorm(S, hold(Z3_mk_add(C, 2, xy)))); S.ivSet(r.s, ivAdd(S.ivOf(a), S.ivOf(b))); return r; }
    case Instruction::FSub: if (isZeroQ(b)) return a; if (a.s && a.s == b.s) return vfpq(w, 0); xy[0] = realOf(a); xy[1] = realOf(b); { Val r = vfps(w, polyNorm(S, hold(Z3_mk_sub(C, 2, xy)))); S.ivSet(r.s, ivAdd(S.ivOf(a), ivNeg(S.ivOf(b)))); return r; }
    case Instruction::FMul:
      if (isZeroQ(a) || isZeroQ(b)) return vfpq(w, 0);
      if (a.conc() && *a.q == 1) return b; if (b.conc() && *b.q == 1) return a;
      xy[0] = realOf(a); xy[1] = realOf(b); { Val r = vfps(w, polyNorm(S, hold(Z3_mk_mul(C, 2, xy)))); S.ivSet(r.s, a.s && a.s == b.s ? ivSq(S.ivOf(a)) : ivMul(S.ivOf(a), S.ivOf(b))); return r; }
    case Instruction::FDiv: {
      if (b.conc()) { if (*b.q == 0) { int s = sgn(a); return s == 0 ? vfpsp(w, NaN_) : vfpsp(w, s > 0 ? PINF : NINF); } return fpBin(S, Instruction::FMul, a, vfpq(w, 1 / *b.q)); }
      Z3_ast z = Z3_mk_numeral(C, "0", Z3_mk_real_sort(C));
      { mpq_class pq; if (polyDiff(S, b.s, z, pq, nullptr)) return fpBin(S, op, a, vfpq(w, pq)); }
      Iv bi = S.ivOf(b); if (!bi.pos() && !bi.neg() && !bi.nz && decide(S, hold(Z3_mk_eq(C, b.s, z)))) { if (OPT["pruneDiv0"]) throw PathEnd{0, "div0"}; int s = sgn(a); return s == 0 ? vfpsp(w, NaN_) : vfpsp(w, s > 0 ? PINF : NINF); }
      if (a.s && a.s == b.s) return vfpq(w, 1);
      if (isZeroQ(a)) return vfpq(w, 0);
      { Val rc = recip(S, b); bi.nz = true; if (rc.s) S.ivSet(rc.s, ivRcp(bi)); S.flushEq(); return fpBin(S, Instruction::FMul, a, rc); }
    }
    case Instruction::FRem: {
      Val q = fpBin(S, Instruction::FDiv, a, b); if (q.conc() && q.sp != FIN) return vfpsp(w, NaN_);
      mpz_class z = q.conc() ? mpz_class(*q.q) : decideInt(S, q.s, true, 0);
      return fpBin(S, Instruction::FSub, a, fpBin(S, Instruction::FMul, vfpq(w, mpq_class(z)), b));
    }
  }
  throw Unsupported{"fp op"};
}
Val Exec::fcmp(State& S, unsigned p, const Val& a0, const Val& b0) {
  Val a = a0, b = b0; unsigned w = a.w ? a.w : b.w;
  if (p == CmpInst::FCMP_FALSE) return vint(1, 0); if (p == CmpInst::FCMP_TRUE) return vint(1, 1);
  if (a.k == VK::Undef) a = vfps(w ? w : 64, freshVar("undeff", REAL ? Z3_mk_real_sort(C) : fpSort(w))); if (b.k == VK::Undef) b = vfps(w ? w : 64, freshVar("undeff", REAL ? Z3_mk_real_sort(C) : fpSort(w)));
  bool uno = p >= CmpInst::FCMP_UNO;   // UNO=8.. UNE=14
  unsigned rel = p & 7;                // bit0 eq bit1 gt bit2 lt ; ORD=7 UNO=8(rel 0)
  if (REAL) {
    if ((a.conc() && a.sp == NaN_) || (b.conc() && b.sp == NaN_)) return vint(1, uno);
    if (rel == 7) return vint(1, 1); if (rel == 0) return vint(1, 0);
    auto rank = [](const Val& v) { return v.conc() ? (v.sp == PINF ? 1 : v.sp == NINF ? -1 : 0) : 0; };
    int ra = rank(a), rb = rank(b), cmp = 2;
    if (ra != rb) cmp = ra < rb ? -1 : 1; else if (ra) cmp = 0;
    else if (a.conc() && b.conc()) cmp = *a.q < *b.q ? -1 : *a.q > *b.q ? 1 : 0;
    else if (a.s && a.s == b.s) cmp = 0;
    if (cmp == 2) { Iv i = S.ivOf(a), j = S.ivOf(b); if (i.any() && j.any()) { if (b.conc() && *b.q == 0) { if (i.pos()) cmp = 1; else if (i.neg()) cmp = -1; else if (i.nz && (rel == 1 || rel == 6)) return vint(1, rel == 6); else if (i.lo >= 0 && (rel == 4 || rel == 3)) return vint(1, rel == 3); else if (i.hi <= 0 && (rel == 2 || rel == 5)) return vint(1, rel == 5); } if (a.conc() && *a.q == 0) { if (j.pos()) cmp = -1; else if (j.neg()) cmp = 1; else if (j.nz && (rel == 1 || rel == 6)) return vint(1, rel == 6); else if (j.lo >= 0 && (rel == 2 || rel == 5)) return vint(1, rel == 5); else if (j.hi <= 0 && (rel == 4 || rel == 3)) return vint(1, rel == 3); } if (cmp == 2) { if (i.lo > j.hi) cmp = 1; else if (i.hi < j.lo) cmp = -1; else if (i.lo >= j.hi && (rel == 4 || rel == 3)) return vint(1, rel == 3); else if (i.hi <= j.lo && (rel == 2 || rel == 5)) return vint(1, rel == 5); } } }
    if (cmp != 2) return vint(1, (cmp == 0 && (rel & 1)) || (cmp > 0 && (rel & 2)) || (cmp < 0 && (rel & 4)));
    Z3_ast x = realOf(a), y = realOf(b), r;
    { mpq_class q; Z3_ast df; if (polyDiff(S, x, y, q, &df)) { cmp = q < 0 ? -1 : q > 0 ? 1 : 0; return vint(1, (cmp == 0 && (rel & 1)) || (cmp > 0 && (rel & 2)) || (cmp < 0 && (rel & 4))); } if (df) { x = df; y = Z3_mk_numeral(C, "0", Z3_mk_real_sort(C)); } }
    switch (rel) { case 1: r = Z3_mk_eq(C, x, y); break; case 2: r = Z3_mk_gt(C, x, y); break; case 3: r = Z3_mk_ge(C, x, y); break; case 4: r = Z3_mk_lt(C, x, y); break; case 5: r = Z3_mk_le(C, x, y); break; default: r = Z3_mk_not(C, Z3_mk_eq(C, x, y)); }
    return vsym(1, hold(r));
  }
  if (a.conc() && b.conc()) {
    bool n = std::isnan(a.d) || std::isnan(b.d); if (n) return vint(1, uno); if (rel == 7) return vint(1, 1); if (rel == 0) return vint(1, 0);
    return vint(1, (a.d == b.d && (rel & 1)) || (a.d > b.d && (rel & 2)) || (a.d < b.d && (rel & 4)));
  }
  Z3_ast x = fpOf(a), y = fpOf(b), r, nn[2] = {Z3_mk_fpa_is_nan(C, x), Z3_mk_fpa_is_nan(C, y)}, isn = hold(Z3_mk_or(C, 2, nn));
  if (rel == 7) return vsym(1, simp(mkNot(isn))); if (rel == 0) return vsym(1, simp(isn));
  switch (rel) { case 1: r = Z3_mk_fpa_eq(C, x, y); break; case 2: r = Z3_mk_fpa_gt(C, x, y); break; case 3: r = Z3_mk_fpa_geq(C, x, y); break; case 4: r = Z3_mk_fpa_lt(C, x, y); break; case 5: r = Z3_mk_fpa_leq(C, x, y); break;
    default: { Z3_ast v[2] = {Z3_mk_fpa_lt(C, x, y), Z3_mk_fpa_gt(C, x, y)}; r = Z3_mk_or(C, 2, v); } }
  if (uno) { Z3_ast v[2] = {r, isn}; r = Z3_mk_or(C, 2, v); }
  return vsym(1, simp(hold(r)));
}
Val Exec::select(State& S, const Val& c, const Val& a, const Val& b, Type* t) {
  if (c.k == VK::Agg) { auto v = std::make_shared<std::vector<Val>>(); Type* et = cast_or_null<VectorType>(t)->getElementType(); for (size_t i = 0; i < c.agg->size(); i++) v->push_back(select(S, (*c.agg)[i], (*materialize(a, t).agg)[i], (*materialize(b, t).agg)[i], et)); Val r; r.k = VK::Agg; r.agg = v; return r; }
  if (c.k == VK::Int && c.conc()) return c.c ? a : b;
  if (c.k == VK::Undef) return decideV(S, c) ? a : b;
  if (a.k == VK::Int && b.k == VK::Int && a.w == b.w && !(t->isPointerTy())) { if (a.conc() && b.conc() && a.c == b.c) return a; return vsym(a.w, simp(Z3_mk_ite(C, c.s, astOf(a), astOf(b)))); }
  if (a.k == VK::FP && b.k == VK::FP && !OPT["forkselect"]) {
    if (REAL) { if (!(a.conc() && a.sp != FIN) && !(b.conc() && b.sp != FIN)) { if (a.s && a.s == b.s) return a; return vfps(a.w, hold(Z3_mk_ite(C, c.s, realOf(a), realOf(b)))); } }
    else return vfps(a.w, hold(Z3_mk_ite(C, c.s, fpOf(a), fpOf(b))));
  }
  return decideV(S, c) ? a : b;
}
Val Exec::cast(State& S, unsigned op, const Val& a0, Type* from, Type* to) {
  if (from->isVectorTy() && to->isVectorTy() && op != Instruction::BitCast) {
    Val a = materialize(a0, from); auto v = std::make_shared<std::vector<Val>>(); for (auto& e : *a.agg) v->push_back(cast(S, op, e, cast_or_null<VectorType>(from)->getElementType(), cast_or_null<VectorType>(to)->getElementType())); Val r; r.k = VK::Agg; r.agg = v; return r;
  }
  Val a = a0; if (a.k == VK::Undef) { if (op == Instruction::BitCast || op == Instruction::Trunc || op == Instruction::PtrToInt || op == Instruction::IntToPtr) return a; a = materialize(a, from); }
  auto tw = [&](Type* t) -> unsigned { return t->isPointerTy() ? 64 : t->isIntegerTy() ? t->getIntegerBitWidth() : t->isFloatTy() ? 32 : isDbl(t) ? 64 : 0; };
  unsigned w = tw(to);
  switch (op) {
    case Instruction::Trunc: if (a.k == VK::Bundle) { if (w % 8 == 0) { std::vector<MB> v(a.by->begin(), a.by->begin() + w / 8); return bytesTo(S, v, to); } throw Unsupported{"trunc bundle"}; } return truncTo(a, w);
    case Instruction::ZExt:
      if (a.k == VK::Bundle) { Val r = a; auto v = *a.by; MB z; z.t = 1; while (v.size() < w / 8) v.push_back(z); r.by = std::make_shared<const std::vector<MB>>(v); r.w = w; return r; }
      if (a.conc()) return vint(w, a.c);
      if (a.w == 1) return vsym(w, hold(Z3_mk_ite(C, a.s, astOf(vint(w, 1)), astOf(vint(w, 0)))));
      return vsym(w, simp(Z3_mk_zero_ext(C, w - a.w, a.s)));
    case Instruction::SExt: ENSURE(a.k == VK::Int, "sext"); if (a.conc()) return vint(w, (u128)sext128(a.c, a.w)); if (a.w == 1) return vsym(w, hold(Z3_mk_ite(C, a.s, astOf(vint(w, maskw(w))), astOf(vint(w, 0))))); return vsym(w, simp(Z3_mk_sign_ext(C, w - a.w, a.s)));
    case Instruction::PtrToInt: case Instruction::IntToPtr: { Val r = a.w == w ? a : a.w > w ? truncTo(a, w) : (a.conc() ? vint(w, a.c) : vsym(w, simp(Z3_mk_zero_ext(C, w - a.w, a.s)))); r.prov = a.prov; return r; }
    case Instruction::FPTrunc: case Instruction::FPExt:
      if (REAL) { Val r = a; r.w = w; return r; }
      if (a.conc()) return vfp(w, a.d); return vfps(w, hold(Z3_mk_fpa_to_fp_float(C, Z3_mk_fpa_rne(C), a.s, fpSort(w))));
    case Instruction::SIToFP: case Instruction::UIToFP: {
      bool sg = op == Instruction::SIToFP; ENSURE(a.k == VK::Int, "sitofp");
      if (a.conc()) { if (REAL) { mpz_class z(u128s(sg && sext128(a.c, a.w) < 0 ? (u128)(-sext128(a.c, a.w)) : a.c)); if (sg && sext128(a.c, a.w) < 0) z = -z; return vfpq(w, mpq_class(z)); }
        if (w == 32) return vfp(32, sg ? (float)sext128(a.c, a.w) : (float)a.c); return vfp(64, sg ? (double)sext128(a.c, a.w) : (double)a.c); }
      if (!REAL) { Z3_ast x = a.s; if (a.w == 1) x = Z3_mk_ite(C, a.s, Z3_mk_numeral(C, "1", Z3_mk_bv_sort(C, 8)), Z3_mk_numeral(C, "0", Z3_mk_bv_sort(C, 8))); hold(x); return vfps(w, hold(sg ? Z3_mk_fpa_to_fp_signed(C, Z3_mk_fpa_rne(C), x, fpSort(w)) : Z3_mk_fpa_to_fp_unsigned(C, Z3_mk_fpa_rne(C), x, fpSort(w)))); }
      if (a.w == 1) return vfps(w, hold(Z3_mk_ite(C, a.s, realOf(vfpq(64, sg ? -1 : 1)), realOf(vfpq(64, 0)))));
      if (OPT["bv2real"] > 0) { // the value as a sum of its bits
        Z3_sort rs = Z3_mk_real_sort(C); std::vector<Z3_ast> t; Z3_ast one = Z3_mk_numeral(C, "1", Z3_mk_bv_sort(C, 1)), rz = hold(Z3_mk_numeral(C, "0", rs));
        for (unsigned i = 0; i < a.w; i++) {
          Z3_ast b = simp(Z3_mk_eq(C, Z3_mk_extract(C, i, i, a.s), one)); Z3_lbool l = Z3_get_bool_value(C, b); if (l == Z3_L_FALSE) continue;
          mpz_class z = mpz_class(1) << i; if (sg && i == a.w - 1) z = -z; Z3_ast n = hold(Z3_mk_numeral(C, z.get_str().c_str(), rs)); t.push_back(l == Z3_L_TRUE ? n : hold(Z3_mk_ite(C, b, n, rz)));
        }
        if ((long)t.size() <= OPT["bv2real"]) return vfps(w, t.empty() ? rz : t.size() == 1 ? t[0] : hold(Z3_mk_add(C, (unsigned)t.size(), t.data())));
      }
      u128 c = concretize(S, a); return cast(S, op, vint(a.w, c), from, to);
    }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      bool sg = op == Instruction::FPToSI;
      if (REAL) {
        if (a.conc() && a.sp != FIN) { if (OPT["castcheck"]) memErr(S, "float-to-integer conversion of non-finite value", hold(Z3_mk_true(C))); return vint(w, 0); }
        if (!a.conc() && OPT["symround"] && !sg && w <= 32) return wholeBits(S, a, w);
        mpz_class z; if (a.conc()) mpz_tdiv_q(z.get_mpz_t(), a.q->get_num().get_mpz_t(), a.q->get_den().get_mpz_t()); else z = decideInt(S, a.s, true, 0);
        mpz_class lo = sg ? -(mpz_class(1) << (w - 1)) : mpz_class(0), hi = (mpz_class(1) << (sg ? w - 1 : w)) - 1;
        if (z < lo || z > hi) { if (OPT["castcheck"]) memErr(S, "float-to-integer conversion out of range", hold(Z3_mk_true(C))); }
        mpz_class m = z; if (m < 0) m += mpz_class(1) << w; mpz_class l = m & mpz_class("18446744073709551615"), h = m >> 64; return vint(w, ((u128)h.get_ui() << 64) | l.get_ui());
      }
      double lo = sg ? -std::ldexp(1.0, w - 1) : 0, hi = std::ldexp(1.0, sg ? w - 1 : w);
      if (a.conc()) { double t = std::trunc(a.d); if (!(t >= lo && t < hi)) { if (OPT["castcheck"]) memErr(S, "float-to-integer conversion out of range", hold(Z3_mk_true(C))); return vint(w, 0); } return vint(w, t < 0 ? (u128)(i128)t : (u128)t); }
      if (OPT["castcheck"] && S.decPos >= S.dec.size()) {
        Z3_ast tr = Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rtz(C), a.s), v[2] = {Z3_mk_fpa_geq(C, tr, fpOf(vfp(a.w, lo))), Z3_mk_fpa_lt(C, tr, fpOf(vfp(a.w, hi)))};
        errorIf(S, hold(Z3_mk_not(C, Z3_mk_and(C, 2, v))), "memory-safety", "float-to-integer conversion out of range");
      }
      return vsym(w, hold(sg ? Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), a.s, w) : Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), a.s, w)));
    }
    case Instruction::BitCast: {
      if (from->isPointerTy() && to->isPointerTy()) return a;
      bool ff = from->isFloatTy() || isDbl(from), tf = to->isFloatTy() || isDbl(to);
      if (from->isIntegerTy() && tf) return bits2fp(a); if (ff && to->isIntegerTy()) return fp2bits(a);
      if (from == to) return a;
      // vectors: through bytes
      uint64_t n = DL.getTypeStoreSize(from).getFixedValue(); Obj o; o.size = n; o.by.resize(n); storeAt(o, 0, a, from); return loadAt(S, o, 0, to);
    }
  }
  throw Unsupported{"cast"};
}
