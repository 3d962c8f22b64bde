// vpse: symbolic executor over LLVM IR -- values, expressions, memory
#pragma once
#include <z3.h>
#include <gmpxx.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <chrono>
#include <random>
#include <algorithm>

typedef unsigned __int128 u128;
typedef __int128 i128;

extern Z3_context C;
extern bool REAL;            // exact-real mode
extern std::map<std::string, long> OPT;

struct Z3Error { std::string msg; };
struct Val;
struct MB {                  // memory byte
  uint8_t t = 0;             // 0 uninit 1 concrete 2 reference
  uint8_t b = 0;             // concrete byte
  uint16_t idx = 0;          // byte index in *v
  const Val* v = nullptr;
};

enum class VK : uint8_t { Undef, Int, FP, Agg, Bundle };
enum SP : uint8_t { FIN = 0, NaN_ = 1, PINF = 2, NINF = 3 };

struct Val {
  VK k = VK::Undef;
  SP sp = FIN;               // real mode special
  uint16_t w = 0;            // int width, or 32/64 for FP
  Z3_ast s = nullptr;        // symbolic expr (null => concrete)
  u128 c = 0;                // concrete int
  double d = 0;              // FP mode concrete
  std::shared_ptr<const mpq_class> q;            // real mode concrete finite
  std::shared_ptr<const std::vector<Val>> agg;   // aggregates / vectors
  std::shared_ptr<const std::vector<MB>> by;     // bundle
  uint64_t prov = 0;         // provenance (object base address), 0 unknown
  bool conc() const { return s == nullptr; }
};

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sext128(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ m) - m);
}
inline Z3_ast hold(Z3_ast a) { Z3_inc_ref(C, a); return a; }

Val vint(unsigned w, u128 c);
Val vsym(unsigned w, Z3_ast s);
Val vfp(unsigned w, double d);                 // concrete from double (either mode)
Val vfpq(unsigned w, const mpq_class& q);      // real mode concrete
Val vfpsp(unsigned w, SP sp);
Val vfps(unsigned w, Z3_ast s);
Z3_ast astOf(const Val& v);                    // int -> BV or Bool(w==1)
Z3_ast realOf(const Val& v);                   // FP real-mode finite -> Real
Z3_ast fpOf(const Val& v);                     // FP mode -> FloatingPoint
Z3_sort bvSort(unsigned w);
Z3_sort fpSort(unsigned w);
Z3_ast freshVar(const char* pfx, Z3_sort s);
std::string u128s(u128 v);
mpq_class shortest(double d, unsigned w);
double mpq2d(const mpq_class& q);
