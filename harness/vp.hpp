// Harness API. In the symbolic build these are intercepted by the engine (engine/handlers.cpp);
// in the native replay build they are implemented by vp_native.cpp, which reads a counterexample.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <filesystem>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <random>
#include <shared_mutex>
#include <span>
#include <sstream>
#include <fstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
namespace fs = std::filesystem;
#include "glm/glm.hpp"
extern "C" {
double vp_real(const char* name);          // arbitrary finite real
float vp_realf(const char* name);
double vp_real_in(const char* name, double lo, double hi); // the range is a hint, vp_in assumes it
float vp_realf_in(const char* name, float lo, float hi);
double vp_real_any(const char* name);      // finite, NaN or +-inf
float vp_realf_any(const char* name);
uint64_t vp_bits(const char* name, int width);
bool vp_bool(const char* name);
void vp_bytes(void* p, uint64_t n, const char* name);
uint32_t vp_choice(const char* name, uint32_t n);
void vp_assume(bool c);
void vp_assume_exact(bool c);              // holds by construction in the native build
void vp_check(bool c, const char* label);
void vp_check_close(double a, double b, double tol, const char* label);
void vp_cover(const char* label);
bool vp_fork(bool c);
bool vp_symbolic();
uint64_t vp_concretize(uint64_t v);
void vp_hint(double r);   // proof hint: the square of r (or a multiple) may turn up under a root
void vp_print(const char* l, double v);
void vp_printi(const char* l, uint64_t v);
}
#define ENTRY extern "C" void
// reals in [lo,hi]
inline double vp_in(const char* n, double lo, double hi) { double v = vp_real_in(n, lo, hi); vp_assume(v >= lo && v <= hi); return v; }
inline float vp_inf(const char* n, float lo, float hi) { float v = vp_realf_in(n, lo, hi); vp_assume(v >= lo && v <= hi); return v; }
inline int vp_int(const char* n, int lo, int hi) { int v = (int)(uint32_t)vp_bits(n, 32); vp_assume(v >= lo && v <= hi); return v; }
// unit vector: exact in the engine, normalised natively
template <class T> inline glm::vec<3, T> vp_unit3(const char* n) {
    double x = vp_real(n), y = vp_real(n), z = vp_real(n);
    if (vp_symbolic()) { vp_assume_exact(x * x + y * y + z * z == 1.0); }
    else { double l = std::sqrt(x * x + y * y + z * z); if (!(l > 1e-9)) { x = 1; y = z = 0; l = 1; } x /= l; y /= l; z /= l; }
    return {T(x), T(y), T(z)};
}
template <class T> inline glm::vec<3, T> vp_vec3(const char* n) { T x = T(vp_real(n)), y = T(vp_real(n)), z = T(vp_real(n)); return {x, y, z}; }
template <class T> inline glm::vec<3, T> vp_vec3in(const char* n, double lo, double hi) { T x = T(vp_in(n, lo, hi)), y = T(vp_in(n, lo, hi)), z = T(vp_in(n, lo, hi)); return {x, y, z}; }
template <class T> inline glm::vec<2, T> vp_vec2in(const char* n, double lo, double hi) { T x = T(vp_in(n, lo, hi)), y = T(vp_in(n, lo, hi)); return {x, y}; }
// tolerance scaled for float (native) vs exact (engine)
template <class V> inline void vp_close3(const V& a, const V& b, double tol, const char* l) { for (int i = 0; i < 3; ++i) vp_check_close(double(a[i]), double(b[i]), tol, l); }
template <class F> inline bool vp_throws(F&& f) { try { f(); } catch (...) { return true; } return false; }
// arbitrary rotation matrix (columns x, y, x cross y): exact in the engine, Gram-Schmidt of the inputs natively
template <class T> inline glm::mat<3, 3, T> vp_rotmat(const char* n) {
    glm::vec<3, double> x = vp_vec3<double>(n), y = vp_vec3<double>(n);
    if (vp_symbolic()) { vp_assume_exact(glm::dot(x, x) == 1.0); vp_assume_exact(glm::dot(y, y) == 1.0); vp_assume_exact(glm::dot(x, y) == 0.0); }
    else { double l = glm::length(x); if (!(l > 1e-9)) { x = {1, 0, 0}; l = 1; } x /= l; y = y - x * glm::dot(x, y); l = glm::length(y); if (!(l > 1e-9)) { y = std::fabs(x.x) < 0.9 ? glm::vec<3, double>(1, 0, 0) : glm::vec<3, double>(0, 1, 0); y = y - x * glm::dot(x, y); l = glm::length(y); } y /= l; }
    glm::mat<3, 3, double> m(1); m[0] = x; m[1] = y; m[2] = glm::cross(x, y); return glm::mat<3, 3, T>(m);
}
#define VP_ROT(T, n) huira::Rotation<T>::from_local_to_parent(vp_rotmat<T>(n))
