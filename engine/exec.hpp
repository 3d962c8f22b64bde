#pragma once
#include "solver.hpp"
#include "poly.hpp"
using namespace llvm;
struct Unsupported { std::string msg; };
struct PathEnd { int kind; std::string msg; };   // 0 pruned 1 done 2 error-reported
struct CxxThrow { uint64_t ptr, ti; };
struct Decision { bool taken; std::string val; };
struct Obj { uint64_t addr = 0, size = 0; bool ro = false, alive = true, heap = false; std::string name; std::vector<MB> by; };
typedef std::shared_ptr<Obj> ObjP;
// long double is carried as a 64-bit value (exact in real mode)
inline bool isDbl(llvm::Type* t) { return t->isDoubleTy() || t->isX86_FP80Ty(); }
inline uint64_t tsz(const llvm::DataLayout& DL, llvm::Type* t) { return t->isX86_FP80Ty() ? 8 : DL.getTypeStoreSize(t).getFixedValue(); }
struct Exec; struct State; struct RuleSet;
typedef std::function<Val(Exec&, State&, CallBase*, std::vector<Val>&)> Handler;
struct FuncInfo {
  Function* f; DenseMap<const Value*, unsigned> num; unsigned n = 0; bool skip = false, huira = false; Handler* h = nullptr; std::string dem;
  long calls = 0;
};
struct Frame { FuncInfo* fi; BasicBlock* bb; BasicBlock* prev = nullptr; BasicBlock::iterator it; std::vector<Val> regs; CallBase* caller = nullptr; std::vector<uint64_t> allocas; bool ctorRun = false; uint64_t va = 0; };
struct Input { std::string name; std::string kind; Val v; };
struct Iv { double lo = -INFINITY, hi = INFINITY; bool nz = false; bool any() const { return lo > -INFINITY || hi < INFINITY || nz; } bool pos() const { return lo > 0 || (lo >= 0 && nz); } bool neg() const { return hi < 0 || (hi <= 0 && nz); } };
Iv ivAdd(const Iv& a, const Iv& b); Iv ivNeg(const Iv& a); Iv ivMul(const Iv& a, const Iv& b); Iv ivSq(const Iv& a); Iv ivRcp(const Iv& a); Iv ivSqrt(const Iv& a);
struct State {
  std::vector<Frame> st; std::map<uint64_t, ObjP> mem; std::vector<Z3_ast> pc;
  std::vector<Decision> dec; size_t decPos = 0;
  std::vector<Input> inputs; std::map<std::string, int> occ;
  std::vector<uint64_t> caught; std::map<uint64_t, uint64_t> excTI; uint64_t landExc = 0, landTI = 0;
  uint64_t nextHeap = 0x1000000000ULL, nextStack = 0x700000000000ULL;
  long steps = 0, forks = 0; std::vector<std::string> trail;
  uint64_t uncaught = 0; std::shared_ptr<const RuleSet> rules; std::vector<Z3_ast> pendEq; void flushEq(); // known value ranges on this path
  std::shared_ptr<std::unordered_map<Z3_ast, Iv>> iv; Iv ivOf(const Val& v) const; void ivSet(Z3_ast a, const Iv& i); void learn(Z3_ast c, bool pos);
  bool isNN(const Val& v) const { return v.conc() ? v.sp == FIN && *v.q >= 0 : ivOf(v).lo >= 0; } Val markNN(Val v, bool c) { if (c && v.s) ivSet(v.s, Iv{0, INFINITY, false}); return v; }
};
struct LabelStat { long discharged = 0, violated = 0, undecided = 0, reached = 0; };
struct Exec {
  Module& M; const DataLayout& DL;
  std::string entry, outdir, prop;
  std::map<const Function*, std::unique_ptr<FuncInfo>> fis;
  std::map<const GlobalValue*, uint64_t> gaddr; std::map<uint64_t, Function*> faddr; std::map<uint64_t, std::string> xaddr;
  std::map<uint64_t, ObjP> gmem; // read-only shared
  std::vector<std::unique_ptr<State>> work;
  std::unordered_map<std::string, Handler> H;
  std::vector<std::string> skips;
  std::map<std::string, LabelStat> labels; std::map<std::string, long> covers; std::map<std::string, bool> coverHit;
  std::map<std::string, int> cexCount; std::map<std::string, long> unsup; std::set<std::string> funcs;
  std::vector<std::string> cexFiles; std::vector<std::string> violLines;
  long paths = 0, pruned = 0, errPaths = 0, unsupPaths = 0, dropped = 0, instrs = 0, uncaughtPaths = 0; bool timedOut = false;
  double t0 = 0;
  std::map<const Constant*, Val> constCache;
  Exec(Module& m);
  // setup
  void setupGlobals(State& S); void initGlobal(State* S, ObjP o, uint64_t off, const Constant* c);
  FuncInfo* info(Function* f);
  void setupHandlers(); void setupMath();
  // run
  void runAll(); void run(State& S);
  void step(State& S);
  void pushFrame(State& S, Function* f, std::vector<Val>& args, CallBase* caller);
  void doReturn(State& S, const Val& v);
  void jump(State& S, BasicBlock* to);
  void unwind(State& S, uint64_t exc);
  void doCall(State& S, CallBase* cb);
  void finishCall(State& S, CallBase* cb, const Val& r);
  Val intrinsic(State& S, IntrinsicInst* I, std::vector<Val>& a);
  // values
  Val eval(State& S, const Value* v); Val constant(State& S, const Constant* c);
  void setReg(State& S, const Instruction* I, const Val& v);
  Val materialize(const Val& v, Type* t);
  // decisions
  bool decide(State& S, Z3_ast cond); bool decideV(State& S, const Val& i1);
  mpz_class decideInt(State& S, Z3_ast e, bool isReal, int mode); // bv exact, or real trunc(0)/floor(1)
  u128 concretize(State& S, const Val& v);
  bool feasible(State& S, Z3_ast c);
  void addPC(State& S, Z3_ast c);
  // memory
  ObjP alloc(State& S, uint64_t size, const std::string& name, bool stack);
  Obj* wr(State& S, uint64_t base);
  ObjP find(State& S, uint64_t addr);
  struct Loc { ObjP o; bool sym; uint64_t off; Z3_ast soff; };
  Loc resolve(State& S, const Val& p, uint64_t n, bool write);
  Val wholeBits(State& S, const Val& a, unsigned w); Val load(State& S, const Val& p, Type* t); void store(State& S, const Val& p, const Val& v, Type* t);
  Val loadAt(State& S, const Obj& o, uint64_t off, Type* t); void storeAt(Obj& o, uint64_t off, const Val& v, Type* t);
  void memcpy_(State& S, const Val& d, const Val& s, uint64_t n);
  MB loadB(State& S, uint64_t a); uint64_t loadPtr(State& S, uint64_t a); std::string cstr(State& S, uint64_t a);
  void memErr(State& S, const std::string& what, Z3_ast cond);
  void errorIf(State& S, Z3_ast cond, const std::string& label, const std::string& what);
  // arithmetic
  Val intBin(State& S, unsigned op, const Val& a, const Val& b); Val icmp(State& S, unsigned p, const Val& a, const Val& b);
  Val fpBin(State& S, unsigned op, const Val& a, const Val& b); Val fcmp(State& S, unsigned p, const Val& a, const Val& b); Val fneg(const Val& a);
  Val cast(State& S, unsigned op, const Val& a, Type* from, Type* to); Val select(State& S, const Val& c, const Val& a, const Val& b, Type* t);
  Val bits2fp(const Val& i); Val fp2bits(const Val& f);
  Val bundleToInt(const std::vector<MB>& b, unsigned w); std::vector<MB> toBytes(const Val& v, unsigned nbytes);
  Val bytesTo(State& S, const std::vector<MB>& b, Type* t);
  // math
  Val rsqrt_(State& S, const Val& a); void trig(State& S, const Val& a, Val& s, Val& c);
  Val recip(State& S, const Val& a);
  Val math(State& S, const std::string& fn, unsigned w, std::vector<Val>& a);
  Val fpUF(State& S, const std::string& fn, unsigned w, const std::vector<Val>& a);
  // reporting
  void report(State& S, const std::string& label, const std::string& what, Z3_ast extra);
  bool tryPinned(State& S, const std::string& label, const std::string& what, Z3_ast bad); std::map<std::string, int> pinTries;
  bool check(State& S, const Val& cond, const std::string& label);
  void writeInputs(State& S, Assign& a, const std::string& file, const std::string& hdr);
  std::string where(State& S);
  void result(const std::string& file, double wall);
};
std::set<Z3_ast>& symWhole();   // --symround: terms known to be whole numbers
