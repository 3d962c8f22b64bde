#include "exec.hpp"
#include <fstream>
#include <sstream>
#include <cxxabi.h>
#define ENSURE(c, m) do { if (!(c)) throw Unsupported{m}; } while (0)
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
std::string Exec::where(State& S) {
  std::string r; int k = 0;
  for (int i = (int)S.st.size() - 1; i >= 0 && k < 6; i--) {
    Frame& f = S.st[i]; if (f.it == f.bb->end()) continue;
    const DebugLoc& d = f.it->getDebugLoc(); std::string loc = "?"; if (d) { auto* sc = cast_or_null<DIScope>(d.getScope()); loc = (sc ? sc->getFilename().str() : "") + ":" + std::to_string(d.getLine()); auto p = loc.rfind("/repo/"); if (p != std::string::npos) loc = loc.substr(p + 6); }
    std::string n = f.fi->dem; if (n.size() > 90) n = n.substr(0, 90); r += (k ? " <- " : "") + n + " (" + loc + ")"; k++;
  }
  return r;
}
// ---------------------------------------------------------------------------- frames
void Exec::pushFrame(State& S, Function* f, std::vector<Val>& args, CallBase* caller) {
  if (S.st.size() > 400) throw Unsupported{"call depth"};
  FuncInfo* fi = info(f); Frame fr; fi->calls++; fr.fi = fi; fr.bb = &f->getEntryBlock(); fr.it = fr.bb->begin(); fr.regs.resize(fi->n); fr.caller = caller;
  if (fi->huira) funcs.insert(fi->dem);
  unsigned i = 0;
  for (auto& a : f->args()) {
    Val v = i < args.size() ? args[i] : Val();
    if (a.hasByValAttr() && v.k == VK::Int) {
      uint64_t n = DL.getTypeAllocSize(a.getParamByValType()).getFixedValue(); ObjP o = alloc(S, n, "byval", true); memcpy_(S, vint(64, o->addr), v, n); v = vint(64, o->addr); fr.allocas.push_back(o->addr);
    }
    fr.regs[fi->num[&a]] = v; i++;
  }
  if (f->isVarArg() && caller) {   // the further arguments, as va_start finds them: eight bytes each
    size_t n = args.size() > i ? args.size() - i : 0; ObjP o = alloc(S, 8 * n + 8, "varargs", true); fr.allocas.push_back(o->addr); fr.va = o->addr;
    for (size_t k = 0; k < n; k++) store(S, vint(64, o->addr + 8 * k), args[i + k], caller->getArgOperand((unsigned)(i + k))->getType());
  }
  S.st.push_back(std::move(fr));
}
void Exec::jump(State& S, BasicBlock* to) {
  Frame& f = S.st.back(); BasicBlock* from = f.bb; std::vector<std::pair<unsigned, Val>> vals;
  for (auto& i : *to) { auto* p = dyn_cast<PHINode>(&i); if (!p) break; vals.push_back({f.fi->num[p], eval(S, p->getIncomingValueForBlock(from))}); }
  for (auto& v : vals) f.regs[v.first] = v.second;
  f.prev = from; f.bb = to; f.it = to->getFirstNonPHI()->getIterator(); instrs += vals.size();
}
static void popFrame(State& S) { for (auto a : S.st.back().allocas) { S.mem.erase(a); } S.st.pop_back(); }
void Exec::doReturn(State& S, const Val& v) {
  CallBase* cb = S.st.back().caller; popFrame(S);
  if (S.st.empty()) throw PathEnd{1, ""};
  if (!cb) { throw PathEnd{1, "ctor"}; }
  finishCall(S, cb, v);
}
void Exec::finishCall(State& S, CallBase* cb, const Val& r) {
  setReg(S, cb, r);
  if (auto* iv = dyn_cast<InvokeInst>(cb)) jump(S, iv->getNormalDest()); else ++S.st.back().it;
}
static const char* STDH[][2] = { {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"} };
static bool tiMatches(Exec& E, State& S, const std::string& thrown, const std::string& want) {
  if (thrown == want) return true;
  for (auto& p : STDH) if (thrown == p[0]) return tiMatches(E, S, p[1], want);
  GlobalVariable* g = E.M.getGlobalVariable(thrown, true);
  if (g && g->hasInitializer()) { auto* c = dyn_cast<ConstantStruct>(g->getInitializer()); if (c) for (unsigned i = 2; i < c->getNumOperands(); i++) { Value* v = c->getOperand(i)->stripPointerCasts(); if (auto* b = dyn_cast<GlobalVariable>(v)) if (tiMatches(E, S, b->getName().str(), want)) return true; } }
  return false;
}
bool tiOffset(Exec& E, const std::string& from, const std::string& want, int64_t& off) {
  if (from == want) return true;
  GlobalVariable* g = E.M.getGlobalVariable(from, true); if (!g || !g->hasInitializer()) return false;
  auto* c = dyn_cast<ConstantStruct>(g->getInitializer()); if (!c) return false;
  for (unsigned i = 2; i < c->getNumOperands(); i++) {
    Value* v = c->getOperand(i)->stripPointerCasts(); auto* b = dyn_cast<GlobalVariable>(v); if (!b) continue;
    int64_t o = 0; if (c->getNumOperands() > 3 && i + 1 < c->getNumOperands()) if (auto* ci = dyn_cast<ConstantInt>(c->getOperand(i + 1))) { if (ci->getSExtValue() & 1) throw Unsupported{"virtual base cast"}; o = ci->getSExtValue() >> 8; }
    if (tiOffset(E, b->getName().str(), want, off)) { off += o; return true; }
  }
  return false;
}
std::string tiName(Exec& E, uint64_t ti) { for (auto& g : E.M.globals()) if (E.gaddr[&g] == ti) return g.getName().str(); return ""; }
void Exec::unwind(State& S, uint64_t exc) {
  // exception leaves the instruction currently being executed in the top frame
  uint64_t ti = S.excTI.count(exc) ? S.excTI[exc] : 0; std::string tname;
  for (auto& g : M.globals()) if (gaddr[&g] == ti) tname = g.getName().str();
  while (!S.st.empty()) {
    Frame& f = S.st.back(); CallBase* cb = dyn_cast<CallBase>(&*f.it);
    if (auto* iv = dyn_cast_or_null<InvokeInst>(cb)) {
      LandingPadInst* lp = iv->getLandingPadInst(); int sel = 0; bool enter = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses() && !sel; i++) {
        if (lp->isCatch(i)) {
          Value* c = lp->getClause(i)->stripPointerCasts();
          if (isa<ConstantPointerNull>(c)) { sel = 1; enter = true; }
          else if (auto* g = dyn_cast<GlobalVariable>(c)) if (tiMatches(*this, S, tname, g->getName().str())) { sel = (int)((gaddr[g] >> 4) & 0x7fffffff); enter = true; }
        } else { auto* arr = dyn_cast<Constant>(lp->getClause(i)); bool any = false; if (arr) for (unsigned k = 0; k < arr->getNumOperands(); k++) if (auto* g = dyn_cast<GlobalVariable>(arr->getOperand(k)->stripPointerCasts())) if (tiMatches(*this, S, tname, g->getName().str())) any = true; if (!any) { sel = -1; enter = true; } }
      }
      if (enter) {
        jump(S, iv->getUnwindDest());
        auto v = std::make_shared<std::vector<Val>>(); v->push_back(vint(64, exc)); v->push_back(vint(32, (u128)(uint32_t)sel)); Val a; a.k = VK::Agg; a.agg = v;
        S.landExc = exc; Frame& g = S.st.back(); g.regs[g.fi->num[lp]] = a; g.it = std::next(lp->getIterator());
        return;
      }
    }
    if (f.fi->f->doesNotThrow()) throw PathEnd{3, "std::terminate: exception " + tname + " escapes noexcept " + f.fi->dem};
    popFrame(S);
  }
  S.uncaught = exc; throw PathEnd{3, "uncaught exception " + tname};
}
// ---------------------------------------------------------------------------- step
void Exec::step(State& S) {
  Frame& f = S.st.back(); Instruction* I = &*f.it; instrs++; S.steps++;
  auto nx = [&](const Val& v) { setReg(S, I, v); ++S.st.back().it; };
  unsigned op = I->getOpcode();
  Type* T = I->getType();
  if (auto* b = dyn_cast<BinaryOperator>(I)) {
    Val x = eval(S, b->getOperand(0)), y = eval(S, b->getOperand(1));
    auto one = [&](const Val& p, const Val& q, Type* t) -> Val {
      if (t->isFloatingPointTy()) { Val P = p, Q = q; ENSURE(t->isFloatTy() || isDbl(t), "fp type"); P = materialize(P, t); Q = materialize(Q, t); return fpBin(S, op, P, Q); }
      Val P = materialize(p, t), Q = materialize(q, t);
      if (OPT["ovf"] && f.fi->huira && S.decPos >= S.dec.size()) if (auto* o = dyn_cast<OverflowingBinaryOperator>(I)) if (o->hasNoSignedWrap() && P.k == VK::Int && Q.k == VK::Int) {
        unsigned w = P.w;
        if (P.conc() && Q.conc()) { i128 r = op == Instruction::Add ? sext128(P.c, w) + sext128(Q.c, w) : op == Instruction::Sub ? sext128(P.c, w) - sext128(Q.c, w) : op == Instruction::Mul ? sext128(P.c, w) * sext128(Q.c, w) : 0; if (r != sext128((u128)r, w)) errorIf(S, hold(Z3_mk_true(C)), "memory-safety", "signed integer overflow"); }
        else if (w > 1 && w <= 64) { unsigned W = op == Instruction::Mul ? 2 * w : w + 1; Z3_ast a = Z3_mk_sign_ext(C, W - w, astOf(P)), bq = Z3_mk_sign_ext(C, W - w, astOf(Q)), r = op == Instruction::Add ? Z3_mk_bvadd(C, a, bq) : op == Instruction::Sub ? Z3_mk_bvsub(C, a, bq) : op == Instruction::Mul ? Z3_mk_bvmul(C, a, bq) : nullptr; if (r) { hold(r); errorIf(S, hold(Z3_mk_not(C, Z3_mk_eq(C, r, Z3_mk_sign_ext(C, W - w, Z3_mk_extract(C, w - 1, 0, r))))), "memory-safety", "signed integer overflow"); } }
      }
      return intBin(S, op, P, Q);
    };
    if (T->isVectorTy()) {
      x = materialize(x, T); y = materialize(y, T); Type* et = T->getScalarType(); auto v = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < x.agg->size(); i++) v->push_back(one((*x.agg)[i], (*y.agg)[i], et)); Val r; r.k = VK::Agg; r.agg = v; return nx(r);
    }
    return nx(one(x, y, T));
  }
  if (auto* c = dyn_cast<CastInst>(I)) return nx(cast(S, op, eval(S, c->getOperand(0)), c->getSrcTy(), c->getDestTy()));
  switch (op) {
    case Instruction::FNeg: { Val x = materialize(eval(S, I->getOperand(0)), T); if (T->isVectorTy()) { auto v = std::make_shared<std::vector<Val>>(); for (auto& e : *x.agg) v->push_back(fneg(materialize(e, T->getScalarType()))); Val r; r.k = VK::Agg; r.agg = v; return nx(r); } return nx(fneg(x)); }
    case Instruction::ICmp: case Instruction::FCmp: {
      auto* c = dyn_cast<CmpInst>(I); Val x = eval(S, c->getOperand(0)), y = eval(S, c->getOperand(1)); Type* ot = c->getOperand(0)->getType();
      auto one = [&](const Val& p, const Val& q) { if (op == Instruction::ICmp) return icmp(S, c->getPredicate(), p, q); return fcmp(S, c->getPredicate(), p, q); };
      if (ot->isVectorTy()) { x = materialize(x, ot); y = materialize(y, ot); auto v = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < x.agg->size(); i++) v->push_back(one(materialize((*x.agg)[i], ot->getScalarType()), materialize((*y.agg)[i], ot->getScalarType()))); Val r; r.k = VK::Agg; r.agg = v; return nx(r); }
      return nx(one(x, y));
    }
    case Instruction::Alloca: {
      auto* a = dyn_cast<AllocaInst>(I); uint64_t n = DL.getTypeAllocSize(a->getAllocatedType()).getFixedValue();
      if (a->isArrayAllocation()) n *= (uint64_t)concretize(S, eval(S, a->getArraySize()));
      ObjP o = alloc(S, n, a->hasName() ? a->getName().str() : "stack", true); f.allocas.push_back(o->addr); Val v = vint(64, o->addr); v.prov = o->addr; return nx(v);
    }
    case Instruction::Load: return nx(load(S, eval(S, I->getOperand(0)), T));
    case Instruction::Store: store(S, eval(S, I->getOperand(1)), eval(S, I->getOperand(0)), I->getOperand(0)->getType()); ++S.st.back().it; return;
    case Instruction::GetElementPtr: {
      auto* g = dyn_cast<GetElementPtrInst>(I); Val b = eval(S, g->getPointerOperand()); if (b.k == VK::Undef) return nx(b);
      u128 off = 0; Z3_ast so = nullptr;
      for (auto gi = gep_type_begin(g), e = gep_type_end(g); gi != e; ++gi) {
        if (StructType* st = gi.getStructTypeOrNull()) { off += DL.getStructLayout(st)->getElementOffset((unsigned)dyn_cast<ConstantInt>(gi.getOperand())->getZExtValue()).getFixedValue(); continue; }
        Val ix = materialize(eval(S, gi.getOperand()), gi.getOperand()->getType()); uint64_t es = DL.getTypeAllocSize(gi.getIndexedType()).getFixedValue();
        if (ix.conc()) off += (u128)(sext128(ix.c, ix.w) * (i128)es);
        else { Z3_ast x = ix.w == 64 ? ix.s : Z3_mk_sign_ext(C, 64 - ix.w, ix.s); hold(x); x = hold(Z3_mk_bvmul(C, x, astOf(vint(64, es)))); so = so ? hold(Z3_mk_bvadd(C, so, x)) : x; }
      }
      Val r;
      if (!so && b.conc()) { r = vint(64, b.c + off); } else { Z3_ast x = hold(Z3_mk_bvadd(C, astOf(b), astOf(vint(64, off)))); if (so) x = hold(Z3_mk_bvadd(C, x, so)); r = vsym(64, simp(x)); }
      r.prov = b.prov; if (!r.prov && b.conc() && so) { ObjP o = find(S, (uint64_t)b.c); if (o) r.prov = o->addr; }
      return nx(r);
    }
    case Instruction::Select: { Val c = eval(S, I->getOperand(0)); Val r = select(S, c, materialize(eval(S, I->getOperand(1)), T), materialize(eval(S, I->getOperand(2)), T), T); return nx(r); }
    case Instruction::Br: {
      auto* b = dyn_cast<BranchInst>(I); if (b->isUnconditional()) return jump(S, b->getSuccessor(0));
      bool t = decideV(S, eval(S, b->getCondition())); return jump(S, b->getSuccessor(t ? 0 : 1));
    }
    case Instruction::Switch: {
      auto* s = dyn_cast<SwitchInst>(I); Val v = materialize(eval(S, s->getCondition()), s->getCondition()->getType());
      for (auto& c : s->cases()) { Val cv = constant(S, c.getCaseValue()); if (decideV(S, icmp(S, CmpInst::ICMP_EQ, v, cv))) return jump(S, c.getCaseSuccessor()); }
      return jump(S, s->getDefaultDest());
    }
    case Instruction::Ret: { Val v; if (I->getNumOperands()) v = eval(S, I->getOperand(0)); return doReturn(S, v); }
    case Instruction::Call: case Instruction::Invoke: return doCall(S, dyn_cast<CallBase>(I));
    case Instruction::Resume: { Val v = eval(S, I->getOperand(0)); uint64_t e = (uint64_t)(*v.agg)[0].c; return unwind(S, e); }
    case Instruction::Unreachable: errorIf(S, hold(Z3_mk_true(C)), "memory-safety", "reached unreachable code"); throw PathEnd{2, ""};
    case Instruction::ExtractValue: { auto* e = dyn_cast<ExtractValueInst>(I); Val v = eval(S, e->getAggregateOperand()); for (unsigned i : e->getIndices()) { if (v.k == VK::Undef) break; Val t = (*v.agg)[i]; v = t; } return nx(v); }
    case Instruction::InsertValue: {
      auto* e = dyn_cast<InsertValueInst>(I); Val v = materialize(eval(S, e->getAggregateOperand()), T); Val x = eval(S, e->getInsertedValueOperand());
      std::function<Val(const Val&, Type*, ArrayRef<unsigned>)> ins = [&](const Val& a, Type* t, ArrayRef<unsigned> ix) -> Val { if (ix.empty()) return x; Val m = materialize(a, t); auto n = std::make_shared<std::vector<Val>>(*m.agg); Type* st = t->isStructTy() ? t->getStructElementType(ix[0]) : t->getArrayElementType(); (*n)[ix[0]] = ins((*n)[ix[0]], st, ix.drop_front()); Val r; r.k = VK::Agg; r.agg = n; return r; };
      return nx(ins(v, T, e->getIndices()));
    }
    case Instruction::ExtractElement: { Val v = materialize(eval(S, I->getOperand(0)), I->getOperand(0)->getType()); uint64_t i = (uint64_t)concretize(S, eval(S, I->getOperand(1))); ENSURE(i < v.agg->size(), "extractelement"); return nx((*v.agg)[i]); }
    case Instruction::InsertElement: { Val v = materialize(eval(S, I->getOperand(0)), T); uint64_t i = (uint64_t)concretize(S, eval(S, I->getOperand(2))); auto n = std::make_shared<std::vector<Val>>(*v.agg); ENSURE(i < n->size(), "insertelement"); (*n)[i] = eval(S, I->getOperand(1)); Val r; r.k = VK::Agg; r.agg = n; return nx(r); }
    case Instruction::ShuffleVector: {
      auto* s = dyn_cast<ShuffleVectorInst>(I); Type* ot = s->getOperand(0)->getType(); Val a = materialize(eval(S, s->getOperand(0)), ot), b = materialize(eval(S, s->getOperand(1)), ot); auto n = std::make_shared<std::vector<Val>>(); size_t k = a.agg->size();
      for (int m : s->getShuffleMask()) n->push_back(m < 0 ? Val() : (size_t)m < k ? (*a.agg)[m] : (*b.agg)[m - k]); Val r; r.k = VK::Agg; r.agg = n; return nx(r);
    }
    case Instruction::Freeze: return nx(materialize(eval(S, I->getOperand(0)), T));
    case Instruction::Fence: ++S.st.back().it; return;
    case Instruction::AtomicRMW: {
      auto* a = dyn_cast<AtomicRMWInst>(I); Val p = eval(S, a->getPointerOperand()), x = eval(S, a->getValOperand()); Val old = load(S, p, T), nv;
      switch (a->getOperation()) { case AtomicRMWInst::Xchg: nv = x; break; case AtomicRMWInst::Add: nv = intBin(S, Instruction::Add, old, x); break; case AtomicRMWInst::Sub: nv = intBin(S, Instruction::Sub, old, x); break; case AtomicRMWInst::And: nv = intBin(S, Instruction::And, old, x); break; case AtomicRMWInst::Or: nv = intBin(S, Instruction::Or, old, x); break; default: throw Unsupported{"atomicrmw"}; }
      store(S, p, nv, T); return nx(old);
    }
    case Instruction::AtomicCmpXchg: {
      auto* a = dyn_cast<AtomicCmpXchgInst>(I); Val p = eval(S, a->getPointerOperand()), e = eval(S, a->getCompareOperand()), n = eval(S, a->getNewValOperand()); Type* t = a->getNewValOperand()->getType(); Val old = load(S, p, t); Val eq = icmp(S, CmpInst::ICMP_EQ, old, e); bool t1 = decideV(S, eq); if (t1) store(S, p, n, t);
      auto v = std::make_shared<std::vector<Val>>(); v->push_back(old); v->push_back(vint(1, t1)); Val r; r.k = VK::Agg; r.agg = v; return nx(r);
    }
    default: throw Unsupported{std::string("instruction ") + I->getOpcodeName()};
  }
}
// ---------------------------------------------------------------------------- calls
static unsigned fw(Type* t) { return t->isFloatTy() ? 32 : 64; }
Val Exec::intrinsic(State& S, IntrinsicInst* I, std::vector<Val>& a) {
  Type* T = I->getType();
  auto vecmap = [&](std::function<Val(std::vector<Val>&)> fn) -> Val {
    if (!T->isVectorTy()) return fn(a);
    auto v = std::make_shared<std::vector<Val>>(); unsigned n = cast_or_null<FixedVectorType>(T)->getNumElements();
    for (unsigned i = 0; i < n; i++) { std::vector<Val> e; for (auto& x : a) e.push_back(x.k == VK::Agg ? (*x.agg)[i] : x); v->push_back(fn(e)); } Val r; r.k = VK::Agg; r.agg = v; return r;
  };
  auto m = [&](const char* n) { return vecmap([&, n](std::vector<Val>& e) { return math(S, n, fw(T->getScalarType()), e); }); };
  auto mm = [&](unsigned p) { return vecmap([&, p](std::vector<Val>& e) { Type* t = T->getScalarType(); Val x = materialize(e[0], t), y = materialize(e[1], t); return select(S, icmp(S, p, x, y), x, y, t); }); };
  auto pair = [&](const Val& x, const Val& y) { auto v = std::make_shared<std::vector<Val>>(); v->push_back(x); v->push_back(y); Val r; r.k = VK::Agg; r.agg = v; return r; };
  switch (I->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: memcpy_(S, a[0], a[1], (uint64_t)concretize(S, a[2])); return Val();
    case Intrinsic::memset: {
      uint64_t n = (uint64_t)concretize(S, a[2]); if (!n) return Val(); Loc l = resolve(S, a[0], n, true); uint64_t off = l.sym ? (uint64_t)concretize(S, vsym(64, l.soff)) : l.off; MB b; Val x = materialize(a[1], Type::getInt8Ty(M.getContext()));
      std::vector<MB> bb = toBytes(x, 1); Obj* o = wr(S, l.o->addr); for (uint64_t i = 0; i < n; i++) o->by[off + i] = bb[0]; return Val();
    }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::var_annotation: return Val();
    case Intrinsic::expect: return a[0]; case Intrinsic::is_constant: return vint(1, 0); case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: return a[0];
    case Intrinsic::objectsize: return vint(64, ~(u128)0);
    case Intrinsic::vastart: { Type* i32 = Type::getInt32Ty(M.getContext()); Type* i64 = Type::getInt64Ty(M.getContext()); store(S, a[0], vint(32, 48), i32); store(S, vint(64, a[0].c + 4), vint(32, 176), i32); store(S, vint(64, a[0].c + 8), vint(64, S.st.back().va), i64); store(S, vint(64, a[0].c + 16), vint(64, 0), i64); return Val(); }
    case Intrinsic::vaend: return Val(); case Intrinsic::vacopy: memcpy_(S, a[0], a[1], 24); return Val();
    case Intrinsic::stacksave: return vint(64, 0); case Intrinsic::stackrestore: return Val();
    case Intrinsic::eh_typeid_for: { Value* c = I->getArgOperand(0)->stripPointerCasts(); auto* g = dyn_cast<GlobalValue>(c); return vint(32, g ? ((gaddr[g] >> 4) & 0x7fffffff) : 1); }
    case Intrinsic::trap: case Intrinsic::ubsantrap: memErr(S, "trap", hold(Z3_mk_true(C))); return Val();
    case Intrinsic::fabs: return m("fabs"); case Intrinsic::sqrt: return m("sqrt"); case Intrinsic::floor: return m("floor"); case Intrinsic::ceil: return m("ceil"); case Intrinsic::trunc: return m("trunc"); case Intrinsic::round: return m("round"); case Intrinsic::rint: return m("rint"); case Intrinsic::nearbyint: return m("nearbyint");
    case Intrinsic::sin: return m("sin"); case Intrinsic::cos: return m("cos"); case Intrinsic::exp: return m("exp"); case Intrinsic::exp2: return m("exp2"); case Intrinsic::log: return m("log"); case Intrinsic::log2: return m("log2"); case Intrinsic::log10: return m("log10"); case Intrinsic::pow: return m("pow");
    case Intrinsic::fma: case Intrinsic::fmuladd: return m("fma"); case Intrinsic::minnum: return m("fmin"); case Intrinsic::maxnum: return m("fmax"); case Intrinsic::copysign: return m("copysign");
    case Intrinsic::umin: return mm(CmpInst::ICMP_ULT); case Intrinsic::umax: return mm(CmpInst::ICMP_UGT); case Intrinsic::smin: return mm(CmpInst::ICMP_SLT); case Intrinsic::smax: return mm(CmpInst::ICMP_SGT);
    case Intrinsic::abs: { Val x = materialize(a[0], T); Val n = intBin(S, Instruction::Sub, vint(x.w, 0), x); return select(S, icmp(S, CmpInst::ICMP_SLT, x, vint(x.w, 0)), n, x, T); }
    case Intrinsic::ctpop: { Val x = a[0]; if (x.conc()) return vint(x.w, __builtin_popcountll((uint64_t)x.c)); Val r = vint(x.w, 0); for (unsigned i = 0; i < x.w; i++) r = intBin(S, Instruction::Add, r, intBin(S, Instruction::And, intBin(S, Instruction::LShr, x, vint(x.w, i)), vint(x.w, 1))); return r; }
    case Intrinsic::ctlz: case Intrinsic::cttz: {
      Val x = materialize(a[0], T); unsigned w = x.w; bool lead = I->getIntrinsicID() == Intrinsic::ctlz;
      if (x.conc()) { unsigned n = 0; for (; n < w; n++) if ((x.c >> (lead ? w - 1 - n : n)) & 1) break; return vint(w, n); }
      Z3_ast r = astOf(vint(w, w)); for (unsigned k = 0; k < w; k++) { unsigned n = w - 1 - k; unsigned bit = lead ? w - 1 - n : n; r = hold(Z3_mk_ite(C, Z3_mk_eq(C, Z3_mk_extract(C, bit, bit, x.s), Z3_mk_numeral(C, "1", Z3_mk_bv_sort(C, 1))), astOf(vint(w, n)), r)); } return vsym(w, r);
    }
    case Intrinsic::bswap: { Val x = materialize(a[0], T); auto b = toBytes(x, x.w / 8); std::reverse(b.begin(), b.end()); return bytesTo(S, b, T); }
    case Intrinsic::fshl: case Intrinsic::fshr: { Val x = a[0], y = a[1], s = a[2]; unsigned w = x.w; Val sm = intBin(S, Instruction::URem, s, vint(w, w)); bool l = I->getIntrinsicID() == Intrinsic::fshl; Val inv = intBin(S, Instruction::Sub, vint(w, w), sm); Val z = icmp(S, CmpInst::ICMP_EQ, sm, vint(w, 0)); Val r = l ? intBin(S, Instruction::Or, intBin(S, Instruction::Shl, x, sm), intBin(S, Instruction::LShr, y, inv)) : intBin(S, Instruction::Or, intBin(S, Instruction::Shl, x, inv), intBin(S, Instruction::LShr, y, sm)); return select(S, z, l ? x : y, r, T); }
    case Intrinsic::usub_sat: return select(S, icmp(S, CmpInst::ICMP_ULT, a[0], a[1]), vint(a[0].w, 0), intBin(S, Instruction::Sub, a[0], a[1]), T);
    case Intrinsic::uadd_sat: { Val s = intBin(S, Instruction::Add, a[0], a[1]); return select(S, icmp(S, CmpInst::ICMP_ULT, s, a[0]), vint(a[0].w, ~(u128)0), s, T); }
    case Intrinsic::uadd_with_overflow: { Val s = intBin(S, Instruction::Add, a[0], a[1]); return pair(s, icmp(S, CmpInst::ICMP_ULT, s, a[0])); }
    case Intrinsic::usub_with_overflow: return pair(intBin(S, Instruction::Sub, a[0], a[1]), icmp(S, CmpInst::ICMP_ULT, a[0], a[1]));
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
      unsigned w = a[0].w; bool u = I->getIntrinsicID() == Intrinsic::umul_with_overflow; unsigned W = std::min(128u, 2 * w); ENSURE(w <= 64, "mul ovf width"); auto ext = [&](const Val& x) { return x.conc() ? vint(W, u ? x.c : (u128)sext128(x.c, w)) : vsym(W, hold(u ? Z3_mk_zero_ext(C, W - w, x.s) : Z3_mk_sign_ext(C, W - w, x.s))); };
      unsigned o = I->getIntrinsicID() == Intrinsic::sadd_with_overflow ? Instruction::Add : I->getIntrinsicID() == Intrinsic::ssub_with_overflow ? Instruction::Sub : Instruction::Mul;
      Val r = intBin(S, o, ext(a[0]), ext(a[1])); Val lo = r.conc() ? vint(w, r.c) : vsym(w, simp(Z3_mk_extract(C, w - 1, 0, r.s))); return pair(lo, icmp(S, CmpInst::ICMP_NE, r, ext(lo)));
    }
    case Intrinsic::is_fpclass: {
      Val x = a[0]; unsigned mask = (unsigned)a[1].c; // nan 0x3, -inf 4, +inf 0x200
      if (REAL) {
        if (x.conc() && x.sp == NaN_) return vint(1, (mask & 3) != 0); if (x.conc() && x.sp == PINF) return vint(1, (mask & 0x200) != 0); if (x.conc() && x.sp == NINF) return vint(1, (mask & 4) != 0);
        unsigned fin = mask & 0x1f8; if (fin == 0) return vint(1, 0); if (fin == 0x1f8) return vint(1, 1);
        Z3_ast r = hold(Z3_mk_false(C)); Val z = vfp(x.w, 0); auto orr = [&](const Val& v) { Z3_ast q[2] = {r, astOf(v)}; r = hold(Z3_mk_or(C, 2, q)); };
        if (fin & 0x60) orr(fcmp(S, CmpInst::FCMP_OEQ, x, z)); if (fin & 0x100) orr(fcmp(S, CmpInst::FCMP_OGT, x, z)); if (fin & 0x8) orr(fcmp(S, CmpInst::FCMP_OLT, x, z)); return vsym(1, simp(r));
      }
      Z3_ast e = fpOf(x); std::vector<Z3_ast> o; Z3_ast neg = Z3_mk_fpa_is_negative(C, e), pos = mkNot(neg); auto A2 = [&](Z3_ast p, Z3_ast q) { Z3_ast v[2] = {p, q}; return hold(Z3_mk_and(C, 2, v)); };
      if (mask & 3) o.push_back(hold(Z3_mk_fpa_is_nan(C, e))); if (mask & 4) o.push_back(A2(Z3_mk_fpa_is_infinite(C, e), neg)); if (mask & 0x200) o.push_back(A2(Z3_mk_fpa_is_infinite(C, e), pos));
      if (mask & 8) o.push_back(A2(Z3_mk_fpa_is_normal(C, e), neg)); if (mask & 0x100) o.push_back(A2(Z3_mk_fpa_is_normal(C, e), pos)); if (mask & 0x10) o.push_back(A2(Z3_mk_fpa_is_subnormal(C, e), neg)); if (mask & 0x80) o.push_back(A2(Z3_mk_fpa_is_subnormal(C, e), pos));
      if (mask & 0x20) o.push_back(A2(Z3_mk_fpa_is_zero(C, e), neg)); if (mask & 0x40) o.push_back(A2(Z3_mk_fpa_is_zero(C, e), pos));
      return vsym(1, simp(Z3_mk_or(C, o.size(), o.data())));
    }
    case Intrinsic::vector_reduce_fadd: { Val r = a[0]; for (auto& e : *a[1].agg) r = fpBin(S, Instruction::FAdd, r, e); return r; }
    case Intrinsic::lround: case Intrinsic::llround: { Val x = a[0]; std::vector<Val> e{x}; Val r = math(S, "round", x.w, e); return cast(S, Instruction::FPToSI, r, x.w == 32 ? Type::getFloatTy(M.getContext()) : Type::getDoubleTy(M.getContext()), T); }
    default: throw Unsupported{"intrinsic " + I->getCalledFunction()->getName().str()};
  }
}
void Exec::doCall(State& S, CallBase* cb) {
  if (cb->isInlineAsm()) { if (cb->getType()->isVoidTy()) return finishCall(S, cb, Val()); throw Unsupported{"inline asm"}; }
  std::vector<Val> args; for (auto& a : cb->args()) { if (a->getType()->isMetadataTy()) args.push_back(Val()); else args.push_back(eval(S, a.get())); }
  Function* f = cb->getCalledFunction();
  if (!f) f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases());
  if (!f) {
    Val p = eval(S, cb->getCalledOperand()); if (p.k == VK::Undef) memErr(S, "call through undefined pointer", hold(Z3_mk_true(C)));
    if (!p.conc()) throw Unsupported{"symbolic function pointer"};
    auto it = faddr.find((uint64_t)p.c); if (it == faddr.end()) { if (p.c < 4096) memErr(S, "call through null pointer", hold(Z3_mk_true(C))); memErr(S, "call through non-function pointer (dangling object?)", hold(Z3_mk_true(C))); }
    f = it->second;
  }
  if (auto* ii = dyn_cast<IntrinsicInst>(cb)) { Val r = intrinsic(S, ii, args); return finishCall(S, cb, r); }
  FuncInfo* fi = info(f);
  if (OPT["bigthrow"] && f->getName() == "_Znwm" && args[0].conc() && args[0].c > (u128)OPT["maxalloc"]) if (Function* g = M.getFunction("_ZSt17__throw_bad_allocv")) if (!g->isDeclaration()) { std::vector<Val> none; return pushFrame(S, g, none, cb); }   // memory runs out
  if (fi->h) {
    try { Val r = (*fi->h)(*this, S, cb, args); return finishCall(S, cb, r); }
    catch (CxxThrow& t) { S.excTI[t.ptr] = t.ti; return unwind(S, t.ptr); }
  }
  if (fi->skip) {
    Val r; Type* t = cb->getType(); if (t->isPointerTy()) r = vint(64, args.empty() || args[0].k != VK::Int ? 0 : args[0].c); else if (t->isIntegerTy()) r = vint(t->getIntegerBitWidth(), 0); else if (t->isFloatingPointTy()) r = vfp(fw(t), 0);
    return finishCall(S, cb, r);
  }
  if (f->isDeclaration() && (fi->dem.compare(0, 19, "std::basic_ostream<") == 0 || fi->dem.compare(0, 13, "std::ostream:") == 0 || fi->dem.compare(0, 15, "std::ostream& s") == 0)) return finishCall(S, cb, cb->getType()->isPointerTy() ? args[0] : Val());
  if (f->isDeclaration()) throw Unsupported{"extern " + fi->dem + " [" + f->getName().str() + "]"};
  pushFrame(S, f, args, cb);
}
// ---------------------------------------------------------------------------- reporting
void Exec::writeInputs(State& S, Assign& a, const std::string& file, const std::string& hdr) {
  std::ofstream o(file); o << "# " << hdr << "\n";
  for (auto& in : S.inputs) {
    std::string v;
    if (in.v.k == VK::Int) { if (in.v.conc()) v = u128s(in.v.c); else { auto it = a.find(in.v.s); v = it == a.end() ? "0" : valueStr(it->second); if (v == "true") v = "1"; if (v == "false") v = "0"; } }
    else if (in.v.conc()) { char b[64]; if (REAL) { if (in.v.sp == FIN) snprintf(b, 64, "%.17g", mpq2d(*in.v.q)); else strcpy(b, in.v.sp == NaN_ ? "nan" : in.v.sp == PINF ? "inf" : "-inf"); } else snprintf(b, 64, "%.17g", in.v.d); v = b; }
    else {
      if (REAL) { auto it = a.find(in.v.s); v = it == a.end() ? "0.37" : valueStr(it->second); }
      else { // FP variable built from bit-vector
        Val bits = fp2bits(in.v); auto it = a.find(bits.s); uint64_t u = it == a.end() ? 0 : strtoull(valueStr(it->second).c_str(), nullptr, 10); double d; if (in.v.w == 32) { uint32_t x = (uint32_t)u; float f; memcpy(&f, &x, 4); d = f; } else memcpy(&d, &u, 8); char b[64]; snprintf(b, 64, "%.17g", d); v = b; }
    }
    o << in.kind << " " << in.name << " " << v << "\n";
  }
}
void Exec::report(State& S, const std::string& label, const std::string& what, Z3_ast extra) {
  labels[label].violated++;
  int& n = cexCount[label]; if (n >= OPT["maxcex"]) return;
  std::vector<Z3_ast> pins; for (auto& in : S.inputs) if (in.v.s && in.v.k == VK::FP) pins.push_back(in.v.s);
  int made = 0;
  for (int variant = 0; variant < 3 && n < OPT["maxcex"]; variant++) {
    Assign a; R r = solveAll(S.pc, {extra}, a, true, variant, pins);
    if (r != R::SAT) break;
    std::string l = label; for (auto& ch : l) if (!isalnum((unsigned char)ch)) ch = '_';
    std::string file = outdir + "/" + entry + "." + l + "." + std::to_string(n) + ".cex";
    writeInputs(S, a, file, "entry=" + entry + " label=" + label + " what=" + what + " at " + where(S));
    cexFiles.push_back(file); n++; made++;
    violLines.push_back("{\"label\":\"" + jesc(label) + "\",\"what\":\"" + jesc(what) + "\",\"where\":\"" + jesc(where(S)) + "\",\"file\":\"" + jesc(file) + "\"}");
    if (REAL && trigFix(a)) {
      file = outdir + "/" + entry + "." + l + "." + std::to_string(n) + "t.cex"; writeInputs(S, a, file, "entry=" + entry + " label=" + label + " what=" + what + " at " + where(S));
      violLines.push_back("{\"label\":\"" + jesc(label) + "\",\"what\":\"" + jesc(what) + "\",\"where\":\"" + jesc(where(S)) + "\",\"file\":\"" + jesc(file) + "\"}");
    }
    if (pins.empty()) break;
  }
  if (made) OPT["ts"] = std::min(OPT["ts"], 3000L);
  if (!made) { labels[label].violated--; labels[label].undecided++; }
}
bool Exec::tryPinned(State& S, const std::string& label, const std::string& what, Z3_ast bad) {
  if (!REAL || pinTries[label]++ >= (OPT["pintries"] ? OPT["pintries"] : 3) || now() - t0 > OPT["time"]) return false;
  std::vector<Z3_ast> pv, pins; for (auto& in : S.inputs) if (in.v.s && in.v.k == VK::FP) pv.push_back(in.v.s);
  if (pv.empty() || !pinnedSearch(S.pc, bad, pv, pins)) return false;
  long before = labels[label].violated; report(S, label, what, hold(Z3_mk_and(C, pins.size(), pins.data()))); return labels[label].violated > before;
}
bool Exec::check(State& S, const Val& cond0, const std::string& label) {
  auto& L = labels[label]; L.reached++; Val cond = cond0;
  if (cond.k == VK::Undef) { unsup["check on undef"]++; return true; }
  if (cond.conc()) { if (cond.c) { L.discharged++; return true; } R r = checkSat(S.pc, {}, true, nullptr); (void)r; report(S, label, "check fails on every input of this path", hold(Z3_mk_true(C))); return false; }
  Z3_ast nc = mkNot(cond.s); R r = checkSat(S.pc, {nc}, true, nullptr);
  if (r == R::UNSAT) { L.discharged++; return true; }
  if (r == R::UNK) {
    if (getenv("VPSE_DEBUG")) fprintf(stderr, "[undecided] %s\n", label.c_str());
    if (tryPinned(S, label, "check can fail", nc)) return false;
    L.undecided++; 
    return true;
  }
  report(S, label, "check can fail", nc); return false;
}
// ---------------------------------------------------------------------------- run
void Exec::run(State& S) {
  try {
    while (true) {
      S.decPos = 0;
      if ((S.steps & 1023) == 0 && now() - t0 > OPT["time"]) { timedOut = true; dropped++; return; }
      if (S.steps > OPT["maxsteps"]) throw Unsupported{"step limit"};
      step(S);
      S.dec.clear(); S.flushEq();
    }
  } catch (PathEnd& p) {
    if (p.kind == 0) pruned++; else if (p.kind == 1) paths++; else if (p.kind == 2) errPaths++;
    else { uncaughtPaths++; if (!OPT["allowthrow"]) { labels["no-uncaught-exception"].reached++; report(S, "no-uncaught-exception", p.msg, hold(Z3_mk_true(C))); } }
  } catch (Unsupported& u) { unsup[u.msg + " @ " + where(S)]++; unsupPaths++; }
  catch (Z3Error& u) { unsup[u.msg + " @ " + where(S)]++; unsupPaths++; }
}
void Exec::runAll() {
  auto S0 = std::make_unique<State>(); setupHandlers(); setupGlobals(*S0);
  // global constructors
  if (auto* g = M.getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) {
    std::vector<std::pair<uint64_t, Function*>> cs; for (auto& o : ca->operands()) { auto* cs_ = dyn_cast<ConstantStruct>(o); auto* f = dyn_cast<Function>(cs_->getOperand(1)->stripPointerCasts()); if (f) cs.push_back({dyn_cast<ConstantInt>(cs_->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(cs.begin(), cs.end(), [](auto& x, auto& y) { return x.first < y.first; });
    for (auto& c : cs) { std::vector<Val> no; pushFrame(*S0, c.second, no, nullptr);
      try { while (true) { S0->decPos = 0; step(*S0); S0->dec.clear(); } } catch (PathEnd& p) { if (p.kind != 1) unsup["global ctor ended abnormally: " + p.msg]++; } catch (Unsupported& u) { unsup["global ctor: " + u.msg + " @ " + where(*S0)]++; }
      while (!S0->st.empty()) { for (auto a : S0->st.back().allocas) S0->mem.erase(a); S0->st.pop_back(); } }
  }
  long ctorUnsup = unsup.size(); (void)ctorUnsup; S0->steps = 0; S0->caught.clear();
  Function* e = M.getFunction(entry); if (!e) { fprintf(stderr, "entry %s not found\n", entry.c_str()); exit(3); }
  std::vector<Val> no; pushFrame(*S0, e, no, nullptr); work.push_back(std::move(S0));
  while (!work.empty()) {
    if (now() - t0 > OPT["time"] || paths + pruned + errPaths + unsupPaths > OPT["maxpaths"]) { timedOut = true; dropped += work.size(); break; }
    std::unique_ptr<State> s = std::move(work.back()); work.pop_back(); run(*s);
  }
}
void Exec::result(const std::string& file, double wall) {
  std::ofstream o(file); o << "{\n \"entry\":\"" << entry << "\",\"mode\":\"" << (REAL ? "real" : "fp") << "\",\n";
  o << " \"paths\":" << paths << ",\"pruned\":" << pruned << ",\"error_paths\":" << errPaths << ",\"uncaught_paths\":" << uncaughtPaths << ",\"unsupported_paths\":" << unsupPaths << ",\"dropped\":" << dropped << ",\"timed_out\":" << (timedOut ? "true" : "false") << ",\"instructions\":" << instrs << ",\n";
  o << " \"queries\":" << SS.queries << ",\"sat\":" << SS.sat << ",\"unsat\":" << SS.unsat << ",\"unknown\":" << SS.unk << ",\"cached\":" << SS.cached << ",\"external\":" << SS.ext << ",\"normalform\":" << SS.poly << ",\"solver_s\":" << SS.secs << ",\"wall_s\":" << wall << ",\n";
  auto mp = [&](const char* n, auto& m, auto f) { o << " \"" << n << "\":{"; bool first = true; for (auto& kv : m) { o << (first ? "" : ",") << "\"" << jesc(kv.first) << "\":"; f(kv.second); first = false; } o << "},\n"; };
  mp("labels", labels, [&](LabelStat& l) { o << "{\"reached\":" << l.reached << ",\"discharged\":" << l.discharged << ",\"violated\":" << l.violated << ",\"undecided\":" << l.undecided << "}"; });
  mp("covers", covers, [&](long c) { o << c; }); mp("coverhit", coverHit, [&](bool c) { o << (c ? "true" : "false"); }); mp("unsupported", unsup, [&](long c) { o << c; });
  o << " \"violations\":["; for (size_t i = 0; i < violLines.size(); i++) o << (i ? ",\n" : "\n") << "  " << violLines[i]; o << "],\n \"functions\":["; bool first = true; for (auto& f : funcs) { o << (first ? "\n  \"" : ",\n  \"") << jesc(f) << "\""; first = false; } o << "]\n}\n";
}
