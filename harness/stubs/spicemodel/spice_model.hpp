// Model of the CSPICE functions the code calls: constant-offset time scales with one leap second, free states and frames; records what it was asked.
#pragma once
#define VP_SPICE_MODEL 1
#include "cspice/SpiceUsr.h"
#include <cstring>
#include <string>
#include <functional>
namespace sm {
inline double eps = 0.001, leap_at = 1e8; inline int leap0 = 32; inline bool failing = false, failed = false; inline int resets = 0, bad = 0;
inline std::string asked[5]; inline double asked_et = 0; inline double state[6], elements[8], lt = 0, M[3][3], W[3];
inline std::function<void(const char*, double, double*)> body; inline std::function<void(const char*, double, double (*)[3], double*)> frame;
inline double off(const char* s) { if (!strcmp(s, "TAI")) return 0; if (!strcmp(s, "TT") || !strcmp(s, "TDT")) return 32.184; if (!strcmp(s, "TDB") || !strcmp(s, "ET")) return 32.184 + eps; ++bad; return 0; }
inline bool call() { if (failing) failed = true; return !failed; }
}
extern "C" {
inline void furnsh_c(ConstSpiceChar* f) { sm::asked[0] = f; sm::call(); }
inline void str2et_c(ConstSpiceChar* s, SpiceDouble* et) { sm::asked[0] = s; if (sm::call()) *et = sm::asked_et; }
inline void deltet_c(SpiceDouble e, ConstSpiceChar* t, SpiceDouble* d) { if (!sm::call()) return; double b = 32.184 + sm::eps + sm::leap0; if (!strcmp(t, "UTC")) *d = e >= sm::leap_at ? b + 1 : b; else if (!strcmp(t, "ET")) *d = e >= sm::leap_at + b + 1 ? b + 1 : b; else { ++sm::bad; *d = 0; } }
inline SpiceDouble unitim_c(SpiceDouble e, ConstSpiceChar* i, ConstSpiceChar* o) { sm::call(); return e - sm::off(i) + sm::off(o); }
inline void timout_c(SpiceDouble et, ConstSpiceChar* p, SpiceInt n, SpiceChar* o) { sm::asked_et = et; if (!sm::call()) return; int k = 0; for (; p[k] && k < n - 1; ++k) o[k] = p[k]; o[k] = 0; }
inline void spkezr_c(ConstSpiceChar* t, SpiceDouble et, ConstSpiceChar* f, ConstSpiceChar* a, ConstSpiceChar* o, SpiceDouble s[6], SpiceDouble* lt) { sm::asked[0] = t; sm::asked[1] = f; sm::asked[2] = a; sm::asked[3] = o; sm::asked_et = et; if (!sm::call()) return; if (sm::body) sm::body(t, et, s); else for (int k = 0; k < 6; ++k) s[k] = sm::state[k]; *lt = sm::lt; }
inline void sm_frame(ConstSpiceChar* f, ConstSpiceChar* t, SpiceDouble et, double (*M)[3], double* w) { sm::asked[0] = f; sm::asked[1] = t; sm::asked_et = et; if (sm::frame) sm::frame(t, et, M, w); else for (int i = 0; i < 3; ++i) { w[i] = sm::W[i]; for (int j = 0; j < 3; ++j) M[i][j] = sm::M[i][j]; } }
inline void pxform_c(ConstSpiceChar* f, ConstSpiceChar* t, SpiceDouble et, SpiceDouble R[3][3]) { double w[3]; if (sm::call()) sm_frame(f, t, et, R, w); }
// state transformation [M 0; dM M] with dM = -M [w]x, w the angular velocity of TO in the axes of FROM
inline void sxform_c(ConstSpiceChar* f, ConstSpiceChar* t, SpiceDouble et, SpiceDouble X[6][6]) { double M[3][3], w[3]; if (!sm::call()) return; sm_frame(f, t, et, M, w); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { X[i][j] = X[i + 3][j + 3] = M[i][j]; X[i][j + 3] = 0; X[i + 3][j] = -(M[i][(j + 1) % 3] * w[(j + 2) % 3] - M[i][(j + 2) % 3] * w[(j + 1) % 3]); } }
inline void xf2rav_c(ConstSpiceDouble X[6][6], SpiceDouble R[3][3], SpiceDouble av[3]) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R[i][j] = X[i][j]; for (int k = 0; k < 3; ++k) { double s = 0; for (int i = 0; i < 3; ++i) s -= X[i][(k + 2) % 3] * X[i + 3][(k + 1) % 3]; av[k] = s; } }
inline void conics_c(ConstSpiceDouble e[8], SpiceDouble et, SpiceDouble s[6]) { for (int k = 0; k < 8; ++k) sm::elements[k] = e[k]; sm::asked_et = et; if (sm::call()) for (int k = 0; k < 6; ++k) s[k] = sm::state[k]; }
inline SpiceBoolean failed_c(void) { return sm::failed; }
inline void reset_c(void) { sm::failed = false; ++sm::resets; }
inline void getmsg_c(ConstSpiceChar* w, SpiceInt, SpiceChar* m) { int k = 0; for (; w[k]; ++k) m[k] = w[k]; m[k] = 0; }
inline void erract_c(ConstSpiceChar*, SpiceInt, SpiceChar*) {}
inline void errprt_c(ConstSpiceChar*, SpiceInt, SpiceChar*) {}
}
