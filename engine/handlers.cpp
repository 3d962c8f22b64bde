#include "exec.hpp"
#include "poly.hpp"
bool tiOffset(Exec& E, const std::string& from, const std::string& want, int64_t& off); std::string tiName(Exec& E, uint64_t ti);
#include <unistd.h>
#include <thread>
#include <random>
#define ENSURE(c, m) do { if (!(c)) throw Unsupported{m}; } while (0)
static Z3_sort RS() { static Z3_sort s; if (!s) { s = Z3_mk_real_sort(C); Z3_inc_ref(C, Z3_sort_to_ast(C, s)); } return s; }
static Z3_ast namedVar(State& S, const std::string& n, Z3_sort so) { std::string nm = n + "#" + std::to_string(S.occ[n]); return hold(Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), so)); }
static void addInput(State& S, const std::string& n, const char* kind, const Val& v) { Input i; i.name = n + "#" + std::to_string(S.occ[n]++); i.kind = kind; i.v = v; S.inputs.push_back(i); }
static std::string A0(Exec& E, State& S, const Val& v) { ENSURE(v.k == VK::Int && v.conc(), "symbolic string"); return E.cstr(S, (uint64_t)v.c); }
void Exec::setupHandlers() {
  auto& h = H; Exec* E = this;
  // ------------------------------------------------ harness API
  // slice mode: most real inputs take a generic concrete value, the solver decides the rest
  auto sliceVal = [](State& S, const std::string& n, bool ranged, double lo, double hi, double& out) -> bool {
    long seed = OPT["slice"]; if (!seed) return false;
    uint64_t idx = 0; for (auto& i : S.inputs) if (i.kind[0] == 'f') idx++;
    std::string k = n + "#" + std::to_string(S.occ[n]); std::mt19937_64 g(std::hash<std::string>()(k) * 0x9E3779B97F4A7C15ull + (uint64_t)seed * 7919); g.discard(3);
    long pc[] = {12, 25, 5, 40}; if ((long)(g() % 100) < pc[seed % 4] || (seed % 3 == 0 && idx == (uint64_t)(seed / 3) % 5)) return false;
    unsigned m = g() % 16; double u = double(g() % 4097) / 4096.0, sg = (g() & 1) ? 1 : -1;
    if (ranged) { double z = m == 0 ? lo : m == 1 ? hi : m == 2 ? 0 : m < 7 ? sg * std::pow(2.0, -double(g() % 12)) * (0.5 + u) : lo + (hi - lo) * u; out = z >= lo && z <= hi ? z : lo + (hi - lo) * u; }
    else { double sc[] = {1, 1, 10, 1, 0.0625, 1, 100, 1}; out = m == 0 ? 0 : m == 1 ? sg : sg * u * sc[m % 8]; }
    return true; };
  auto mkReal = [sliceVal](unsigned w, bool ranged = false) { return [w, ranged, sliceVal](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val {
    std::string n = A0(E, S, a[0]); Val v; double cv;
    auto dbl = [](const Val& x) { return REAL ? mpq2d(*x.q) : x.d; };
    if (sliceVal(S, n, ranged, ranged ? dbl(a[1]) : 0, ranged ? dbl(a[2]) : 0, cv)) { v = vfp(w, w == 32 ? (double)(float)cv : cv); addInput(S, n, "f", v); return v; }
    if (REAL) v = vfps(w, namedVar(S, n, RS()));
    else { Z3_ast b = namedVar(S, n, bvSort(w)); v = E.bits2fp(vsym(w, b)); Z3_ast o[2] = {Z3_mk_fpa_is_nan(C, v.s), Z3_mk_fpa_is_infinite(C, v.s)}; E.addPC(S, hold(Z3_mk_not(C, Z3_mk_or(C, 2, o)))); }
    addInput(S, n, "f", v); return v; }; };
  h["vp_real"] = mkReal(64); h["vp_realf"] = mkReal(32); h["vp_real_in"] = mkReal(64, true); h["vp_realf_in"] = mkReal(32, true);
  auto mkAny = [](unsigned w) { return [w](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val {
    std::string n = A0(E, S, a[0]); Val v;
    if (!REAL) { v = E.bits2fp(vsym(w, namedVar(S, n, bvSort(w)))); addInput(S, n, "f", v); return v; }
    std::string s = n + "#" + std::to_string(S.occ[n]) + "?"; auto bv = [&](const char* t) { return hold(Z3_mk_const(C, Z3_mk_string_symbol(C, (s + t).c_str()), Z3_mk_bool_sort(C))); };
    if (E.decide(S, bv("nan"))) v = vfpsp(w, NaN_); else if (E.decide(S, bv("inf"))) v = vfpsp(w, PINF); else if (E.decide(S, bv("ninf"))) v = vfpsp(w, NINF); else v = vfps(w, namedVar(S, n, RS()));
    addInput(S, n, "f", v); return v; }; };
  h["vp_real_any"] = mkAny(64); h["vp_realf_any"] = mkAny(32);
  h["vp_bits"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { std::string n = A0(E, S, a[0]); unsigned w = (unsigned)a[1].c; Val v = vsym(w, namedVar(S, n, bvSort(w))); addInput(S, n, "i", v); return w == 64 ? v : vsym(64, hold(w == 1 ? Z3_mk_ite(C, v.s, astOf(vint(64, 1)), astOf(vint(64, 0))) : Z3_mk_zero_ext(C, 64 - w, v.s))); };
  h["vp_bool"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { std::string n = A0(E, S, a[0]); Val v = vsym(1, namedVar(S, n, bvSort(1))); addInput(S, n, "i", v); return v; };
  h["vp_bytes"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val {
    std::string n = A0(E, S, a[2]); uint64_t len = (uint64_t)E.concretize(S, a[1]); 
    for (uint64_t i = 0; i < len; i++) { std::string m = n + "[" + std::to_string(i) + "]"; Val v = vsym(8, namedVar(S, m, bvSort(8))); addInput(S, m, "i", v); E.store(S, vint(64, a[0].c + i), v, Type::getInt8Ty(E.M.getContext())); } return Val(); };
  h["vp_choice"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val {
    std::string n = A0(E, S, a[0]); Val v = vsym(32, namedVar(S, n, bvSort(32)));
    if (S.decPos >= S.dec.size()) E.addPC(S, hold(Z3_mk_bvult(C, v.s, Z3_mk_numeral(C, u128s(a[1].c).c_str(), bvSort(32)))));
    u128 c = E.concretize(S, v); addInput(S, n, "i", vint(32, c)); return vint(32, c); };
  h["vp_assume"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val {
    Val c = a[0]; if (c.k == VK::Undef) return Val(); if (c.conc()) { if (!c.c) throw PathEnd{0, "assume"}; return Val(); }
    if (!E.feasible(S, c.s)) throw PathEnd{0, "assume"}; E.addPC(S, c.s); return Val(); };
  // structural constraint: exact in the engine, constructed/normalised in the native build
  h["vp_assume_exact"] = h["vp_assume"]; 
  h["vp_check"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { std::string l = A0(E, S, a[1]); bool ok = E.check(S, a[0], l); if (!a[0].conc()) { if (!ok && !E.feasible(S, a[0].s)) throw PathEnd{2, ""}; if (OPT["assumechecks"] || !ok) E.addPC(S, a[0].s); } else if (!ok) throw PathEnd{2, ""}; return Val(); };
  h["vp_check_close"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val {
    std::string l = A0(E, S, a[3]); Val x = a[0], y = a[1], tol = a[2]; auto& L = E.labels[l]; L.reached++;
    if (x.k == VK::Undef || y.k == VK::Undef) { E.unsup["check on undef"]++; return Val(); }
    if (REAL) {
      bool xs = x.conc() && x.sp != FIN, ys = y.conc() && y.sp != FIN;
      if (xs || ys) { if (xs && ys && x.sp == y.sp && x.sp != NaN_) { L.discharged++; return Val(); } E.report(S, l, "value is NaN or infinite", hold(Z3_mk_true(C))); throw PathEnd{2, ""}; }
      if (x.conc() && y.conc()) { mpq_class d = abs(*x.q - *y.q); mpq_class m = abs(*y.q); if (d <= *tol.q * (1 + m)) { L.discharged++; return Val(); } E.report(S, l, "values differ", hold(Z3_mk_true(C))); throw PathEnd{2, ""}; }
      Z3_ast X = realOf(x), Y = realOf(y); { mpq_class dq; Z3_ast df = nullptr; if (polyDiff(S, X, Y, dq, &df)) { if (dq == 0) { L.discharged++; SS.poly++; return Val(); } } else { mpq_class k; if (tol.conc() && polyRatio(S, X, Y, k) && abs(k - 1) <= *tol.q) { L.discharged++; SS.poly++; return Val(); } } }
      Z3_ast ne = hold(Z3_mk_not(C, Z3_mk_eq(C, X, Y)));
      R r = checkSat(S.pc, {ne}, false, nullptr);
      if (r == R::UNSAT) { L.discharged++; return Val(); }
      Z3_ast d[2] = {X, Y}, D = hold(Z3_mk_sub(C, 2, d)); Z3_ast zero = Z3_mk_numeral(C, "0", RS()), T = realOf(tol);
      // |x-y| > tol*(1+|y|)
      Z3_ast ay = hold(Z3_mk_ite(C, Z3_mk_ge(C, Y, zero), Y, Z3_mk_unary_minus(C, Y))), ad = hold(Z3_mk_ite(C, Z3_mk_ge(C, D, zero), D, Z3_mk_unary_minus(C, D)));
      Z3_ast one = Z3_mk_numeral(C, "1", RS()), s2[2] = {one, ay}, sm = Z3_mk_add(C, 2, s2), mt[2] = {T, sm}; Z3_ast bad = hold(Z3_mk_gt(C, ad, Z3_mk_mul(C, 2, mt)));
      if (r == R::UNK) { r = checkSat(S.pc, {ne}, true, nullptr); if (r == R::UNSAT) { L.discharged++; return Val(); } }
      R r2 = checkSat(S.pc, {bad}, true, nullptr);
      if (r2 == R::UNSAT) { L.discharged++; return Val(); }
      if (r2 == R::UNK && E.tryPinned(S, l, "values differ", bad)) { E.addPC(S, mkNot(bad)); return Val(); }
      if (r2 == R::UNK) { if (getenv("VPSE_DEBUG")) fprintf(stderr, "[undecided] %s\n", l.c_str()); L.undecided++; return Val(); }
      E.report(S, l, "values differ", bad); E.addPC(S, mkNot(bad)); return Val();
    }
    // FP mode: exact comparison within tolerance in FP arithmetic
    Val d = E.fpBin(S, Instruction::FSub, x, y); std::vector<Val> v{d}; Val ad = E.math(S, "fabs", 64, v); std::vector<Val> v2{y}; Val ay = E.math(S, "fabs", 64, v2);
    Val bound = E.fpBin(S, Instruction::FMul, tol, E.fpBin(S, Instruction::FAdd, vfp(64, 1), ay)); L.reached--; 
    if (!E.check(S, E.fcmp(S, CmpInst::FCMP_OLE, ad, bound), l)) throw PathEnd{2, ""}; return Val(); };
  h["vp_cover"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val {
    std::string l = A0(E, S, a[0]); E.covers[l]++;
    if (!E.coverHit[l]) { Assign as; if (solveAll(S.pc, {}, as, true, 0, {}) == R::SAT) { E.coverHit[l] = true; std::string n = l; for (auto& ch : n) if (!isalnum((unsigned char)ch)) ch = '_'; E.writeInputs(S, as, E.outdir + "/" + E.entry + "." + n + ".wit", "entry=" + E.entry + " witness=" + l); } }
    return Val(); };
  h["vp_fork"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { return vint(1, E.decideV(S, a[0])); };
  h["vp_symbolic"] = [](Exec&, State&, CallBase*, std::vector<Val>&) -> Val { return vint(1, OPT["slice"] ? 0 : 1); };
  h["vp_concretize"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { return vint(64, E.concretize(S, a[0])); };
  h["vp_hint"] = [](Exec&, State&, CallBase*, std::vector<Val>& a) -> Val { if (REAL && a[0].s) polyHint(a[0].s); return Val(); };
  h["vp_print"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { fprintf(stderr, "[print] %s = %s\n", A0(E, S, a[0]).c_str(), a[1].k == VK::Undef ? "undef" : a[1].s ? Z3_ast_to_string(C, simp(a[1].s)) : REAL ? (a[1].sp == FIN ? std::to_string(mpq2d(*a[1].q)).c_str() : "special") : std::to_string(a[1].d).c_str()); return Val(); };
  h["vp_printi"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { fprintf(stderr, "[print] %s = %s\n", A0(E, S, a[0]).c_str(), a[1].s ? Z3_ast_to_string(C, a[1].s) : std::to_string((long)a[1].c).c_str()); return Val(); };
  // assert a relation without a check (axiom about an uninterpreted function supplied by the harness)
  // ------------------------------------------------ memory
  auto mal = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { uint64_t n = (uint64_t)E.concretize(S, a[0]); if (n > (uint64_t)OPT["maxalloc"]) throw Unsupported{"allocation of " + std::to_string(n) + " bytes"}; ObjP o = E.alloc(S, n, "heap", false); o->heap = true; Val v = vint(64, o->addr); v.prov = o->addr; return v; };
  for (auto n : {"malloc", "_Znwm", "_Znam"}) h[n] = mal;
  h["_ZnwmSt11align_val_t"] = mal; h["_ZnamSt11align_val_t"] = mal; h["_ZnwmRKSt9nothrow_t"] = mal; h["_ZnamRKSt9nothrow_t"] = mal;
  h["aligned_alloc"] = [mal](Exec& E, State& S, CallBase* c, std::vector<Val>& a) -> Val { std::vector<Val> b{a[1]}; return mal(E, S, c, b); };
  h["calloc"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { uint64_t n = (uint64_t)(E.concretize(S, a[0]) * E.concretize(S, a[1])); ObjP o = E.alloc(S, n, "heap", false); o->heap = true; for (auto& b : o->by) b.t = 1; return vint(64, o->addr); };
  auto fre = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val {
    uint64_t p = (uint64_t)E.concretize(S, a[0]); if (!p) return Val(); auto it = S.mem.find(p);
    if (it == S.mem.end() || !it->second->heap) E.memErr(S, "free of invalid pointer", hold(Z3_mk_true(C))); if (!it->second->alive) E.memErr(S, "double free", hold(Z3_mk_true(C)));
    Obj* o = E.wr(S, p); o->alive = false; std::vector<MB>().swap(o->by); return Val(); };
  for (auto n : {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) h[n] = fre;
  // ------------------------------------------------ C++ ABI
  h["__cxa_allocate_exception"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { ObjP o = E.alloc(S, (uint64_t)a[0].c, "exception", false); o->heap = true; return vint(64, o->addr); };
  auto nop = [](Exec&, State&, CallBase* cb, std::vector<Val>& a) -> Val { Type* t = cb->getType(); if (t->isIntegerTy()) return vint(t->getIntegerBitWidth(), 0); if (t->isPointerTy()) return vint(64, a.empty() || a[0].k != VK::Int ? 0 : a[0].c); if (t->isFloatingPointTy()) return vfp(t->isFloatTy() ? 32 : 64, 0); return Val(); };
  h["__cxa_free_exception"] = nop;
  h["__dynamic_cast"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val {
    uint64_t p = (uint64_t)E.concretize(S, a[0]); if (!p) return vint(64, 0); uint64_t vt = E.loadPtr(S, p); int64_t top = (int64_t)E.loadPtr(S, vt - 16); uint64_t ti = E.loadPtr(S, vt - 8); int64_t off = 0;
    if (!tiOffset(E, tiName(E, ti), tiName(E, (uint64_t)a[2].c), off)) return vint(64, 0);
    return vint(64, p + top + off); };
  h["__cxa_bad_cast"] = [](Exec& E, State& S, CallBase*, std::vector<Val>&) -> Val { throw PathEnd{3, "bad_cast"}; };
  h["__cxa_throw"] = [](Exec&, State&, CallBase*, std::vector<Val>& a) -> Val { throw CxxThrow{(uint64_t)a[0].c, (uint64_t)a[1].c}; };
  h["__cxa_begin_catch"] = [](Exec&, State& S, CallBase*, std::vector<Val>& a) -> Val { S.caught.push_back((uint64_t)a[0].c); return a[0]; };
  h["__cxa_get_exception_ptr"] = [](Exec&, State&, CallBase*, std::vector<Val>& a) -> Val { return a[0]; };
  h["__cxa_end_catch"] = [](Exec&, State& S, CallBase*, std::vector<Val>&) -> Val { if (!S.caught.empty()) S.caught.pop_back(); return Val(); };
  h["__cxa_rethrow"] = [](Exec&, State& S, CallBase*, std::vector<Val>&) -> Val { ENSURE(!S.caught.empty(), "rethrow"); uint64_t e = S.caught.back(); throw CxxThrow{e, S.excTI[e]}; };
  h["_Unwind_Resume"] = [](Exec&, State& S, CallBase*, std::vector<Val>& a) -> Val { uint64_t e = (uint64_t)a[0].c; throw CxxThrow{e, S.excTI[e]}; };
  for (auto n : {"__cxa_atexit", "__cxa_thread_atexit", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_rwlock_wrlock", "pthread_rwlock_rdlock", "pthread_rwlock_unlock", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZNSt9exceptionD1Ev", "_ZNSt9exceptionD2Ev", "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt11logic_errorD1Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt12out_of_rangeD1Ev", "_ZNSt16invalid_argumentD1Ev", "_ZNSt12length_errorD1Ev", "_ZNSt12domain_errorD1Ev", "__cxa_guard_release", "__cxa_guard_abort", "signal", "_ZSt13set_terminatePFvvE", "fflush", "setenv", "puts", "printf", "fprintf", "fputs", "_ZNSt12system_errorD1Ev"}) h[n] = nop;
  for (auto n : {"fileno", "isatty", "fwrite", "fputc", "putchar"}) h[n] = [](Exec&, State&, CallBase* cb, std::vector<Val>&) -> Val { return vint(cb->getType()->getIntegerBitWidth(), 0); };
  h["__cxa_guard_acquire"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { Type* i8 = Type::getInt8Ty(E.M.getContext()); Val v = E.load(S, a[0], i8); if (v.k == VK::Int && v.conc() && v.c) return vint(32, 0); E.store(S, a[0], vint(8, 1), i8); return vint(32, 1); };
  h["_ZSt9terminatev"] = [](Exec&, State&, CallBase*, std::vector<Val>&) -> Val { throw PathEnd{3, "std::terminate called"}; }; h["abort"] = h["__clang_call_terminate"] = h["_ZSt9terminatev"]; h["__assert_fail"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { E.memErr(S, "assertion failed: " + E.cstr(S, (uint64_t)a[0].c), hold(Z3_mk_true(C))); return Val(); };
  h["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { E.memErr(S, "libstdc++ precondition violated: " + E.cstr(S, (uint64_t)a[3].c), hold(Z3_mk_true(C))); return Val(); };
  h["__cxa_pure_virtual"] = [](Exec& E, State& S, CallBase*, std::vector<Val>&) -> Val { E.memErr(S, "pure virtual call", hold(Z3_mk_true(C))); return Val(); };
  // std exception constructors: vtable in the runtime module, message pointer copied
  auto excS = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { GlobalVariable* g = E.M.getGlobalVariable("vp_exc_vtable", true); Type* p = PointerType::get(E.M.getContext(), 0); if (g) E.store(S, a[0], vint(64, E.gaddr[g]), p);
    uint64_t s = E.loadPtr(S, (uint64_t)a[1].c); std::string t = E.cstr(S, s); ObjP o = E.alloc(S, t.size() + 1, "what", false); for (size_t i = 0; i <= t.size(); i++) { o->by[i].t = 1; o->by[i].b = i < t.size() ? (uint8_t)t[i] : 0; } E.store(S, vint(64, a[0].c + 8), vint(64, o->addr), p); return Val(); };
  auto excC = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { GlobalVariable* g = E.M.getGlobalVariable("vp_exc_vtable", true); Type* p = PointerType::get(E.M.getContext(), 0); if (g) E.store(S, a[0], vint(64, E.gaddr[g]), p); E.store(S, vint(64, a[0].c + 8), a[1], p); return Val(); };
  for (auto c : {"13runtime_error", "11logic_error", "12out_of_range", "16invalid_argument", "12length_error", "12domain_error", "11range_error", "14overflow_error"}) for (auto k : {"C1", "C2"}) {
    h[std::string("_ZNSt") + c + k + "ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"] = excS; h[std::string("_ZNSt") + c + k + "EPKc"] = excC; }
  auto what = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { return E.load(S, vint(64, a[0].c + 8), PointerType::get(E.M.getContext(), 0)); };
  h["_ZNKSt13runtime_error4whatEv"] = h["_ZNKSt11logic_error4whatEv"] = h["_ZNKSt9exception4whatEv"] = what;
  auto ecopy = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { E.memcpy_(S, a[0], a[1], 16); return Val(); };
  for (auto c : {"13runtime_error", "11logic_error", "12out_of_range", "16invalid_argument"}) for (auto k : {"C1", "C2"}) { h[std::string("_ZNSt") + c + k + "ERKS_"] = ecopy; h[std::string("_ZNSt") + c + k + "EOS_"] = ecopy; }
  h["pthread_self"] = [](Exec&, State&, CallBase*, std::vector<Val>&) -> Val { return vint(64, 1); };
  h["getenv"] = [](Exec&, State&, CallBase*, std::vector<Val>&) -> Val { return vint(64, 0); };
  h["_ZNSt6chrono3_V212system_clock3nowEv"] = [](Exec&, State&, CallBase*, std::vector<Val>&) -> Val { return vint(64, 1000000); }; h["_ZNSt6chrono3_V212steady_clock3nowEv"] = h["_ZNSt6chrono3_V212system_clock3nowEv"];
  h["vsnprintf"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { std::string s = "0.000000"; if (a[1].c > 8) for (size_t i = 0; i <= s.size(); i++) E.store(S, vint(64, a[0].c + i), vint(8, i < s.size() ? s[i] : 0), Type::getInt8Ty(E.M.getContext())); return vint(32, 8); };
  h["snprintf"] = h["vsnprintf"];
  // mem/str
  h["memcpy"] = h["memmove"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { E.memcpy_(S, a[0], a[1], (uint64_t)E.concretize(S, a[2])); return a[0]; };
  h["memset"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { uint64_t n = (uint64_t)E.concretize(S, a[2]); Val b = a[1]; if (b.w != 8) b = b.conc() ? vint(8, b.c) : vsym(8, simp(Z3_mk_extract(C, 7, 0, b.s))); for (uint64_t i = 0; i < n; i++) E.store(S, vint(64, a[0].c + i), b, Type::getInt8Ty(E.M.getContext())); return a[0]; };
  // libm
  for (auto n : {"sin", "cos", "tan", "asin", "acos", "atan", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "cbrt", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "sqrt", "floor", "ceil", "trunc", "round", "rint", "nearbyint", "fabs", "atan2", "pow", "fmod", "hypot", "fmin", "fmax", "copysign", "fma", "j0", "j1", "erf", "tgamma", "lgamma"}) {
    std::string s = n; h[s] = [s](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { return E.math(S, s, 64, a); }; h[s + "f"] = [s](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { return E.math(S, s, 32, a); }; h[s + "l"] = h[s];
    std::string m = "_ZSt" + std::to_string(s.size()) + s;  (void)m; }
  auto lr = [](const char* k, unsigned w) { return [k, w](Exec& E, State& S, CallBase* cb, std::vector<Val>& a) -> Val { Val r = E.math(S, k, w, a); return E.cast(S, Instruction::FPToSI, r, w == 32 ? Type::getFloatTy(E.M.getContext()) : Type::getDoubleTy(E.M.getContext()), cb->getType()); }; };
  h["lround"] = h["llround"] = lr("round", 64); h["lroundf"] = h["llroundf"] = lr("round", 32); h["lrint"] = h["llrint"] = lr("rint", 64); h["lrintf"] = lr("rint", 32);
  h["ldexp"] = h["scalbn"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { long e = (long)sext128(E.concretize(S, a[1]), 32); if (REAL) { mpq_class p; mpz_class z; mpz_ui_pow_ui(z.get_mpz_t(), 2, std::abs(e)); p = e < 0 ? mpq_class(1, z) : mpq_class(z); return E.fpBin(S, Instruction::FMul, a[0], vfpq(64, p)); } if (a[0].conc()) return vfp(64, std::ldexp(a[0].d, (int)e)); if (std::abs(e) > 1000) throw Unsupported{"ldexp"}; return E.fpBin(S, Instruction::FMul, a[0], vfp(64, std::ldexp(1.0, (int)e))); };
  h["ldexpf"] = [](Exec& E, State& S, CallBase*, std::vector<Val>& a) -> Val { long e = (long)sext128(E.concretize(S, a[1]), 32); if (REAL) { mpq_class p; mpz_class z; mpz_ui_pow_ui(z.get_mpz_t(), 2, std::abs(e)); p = e < 0 ? mpq_class(1, z) : mpq_class(z); return E.fpBin(S, Instruction::FMul, a[0], vfpq(32, p)); } if (a[0].conc()) return vfp(32, std::ldexp((float)a[0].d, (int)e)); if (std::abs(e) > 120) { if (e > 0) return E.fpBin(S, Instruction::FMul, E.fpBin(S, Instruction::FMul, a[0], vfp(32, std::ldexp(1.0, 100))), vfp(32, std::ldexp(1.0, (int)std::min(e - 100, 127L)))); return E.fpBin(S, Instruction::FMul, E.fpBin(S, Instruction::FMul, a[0], vfp(32, std::ldexp(1.0, -100))), vfp(32, std::ldexp(1.0, (int)std::max(e + 100, -140L)))); } return E.fpBin(S, Instruction::FMul, a[0], vfp(32, std::ldexp(1.0, (int)e))); };
  (void)E;
}
// ---------------------------------------------------------------------------- main
#include <fstream>
int main(int argc, char** argv) {
  std::vector<std::string> bcs, skips; std::string entry, out = "/tmp";
  OPT["tq"] = 1500; OPT["ts"] = 20000; OPT["enumcap"] = 64; OPT["itecap"] = 600; OPT["maxalloc"] = 1 << 22; OPT["maxcex"] = 4; OPT["time"] = 300; OPT["maxsteps"] = 20000000; OPT["maxpaths"] = 200000;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--entry") entry = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--mode") REAL = std::string(argv[++i]) == "real"; else if (a == "--skip") skips.push_back(argv[++i]);
    else if (a.compare(0, 2, "--") == 0) { auto e = a.find('='); OPT[a.substr(2, e - 2)] = e == std::string::npos ? 1 : atol(a.c_str() + e + 1); }
    else bcs.push_back(a);
  }
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context(cfg); Z3_set_error_handler(C, [](Z3_context c, Z3_error_code e) { throw Z3Error{std::string("z3: ") + Z3_get_error_msg(c, e)}; });
  LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> m = parseIRFile(bcs[0], err, ctx); if (!m) { err.print("vpse", errs()); return 3; }
  Linker L(*m); for (size_t i = 1; i < bcs.size(); i++) { auto n = parseIRFile(bcs[i], err, ctx); if (!n) { err.print("vpse", errs()); return 3; } if (L.linkInModule(std::move(n), Linker::Flags::None)) { fprintf(stderr, "link failed\n"); return 3; } }
  auto t0 = std::chrono::steady_clock::now(); Exec E(*m); E.entry = entry; E.outdir = out; E.skips = skips; 
  long tl = OPT["time"]; DEADLINE = std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count() + tl;
  std::thread([&E, out, entry, t0, tl] {
    std::this_thread::sleep_for(std::chrono::seconds(tl + 10));
    for (int i = 0; i < 40; i++) { Z3_interrupt(C); std::this_thread::sleep_for(std::chrono::milliseconds(250)); }
    E.timedOut = true; E.dropped++; E.result(out + "/" + entry + ".json", std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count()); _exit(0);
  }).detach();
  E.runAll();
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  E.result(out + "/" + entry + ".json", wall);
  fflush(stdout); fflush(stderr); _exit(0);
}
