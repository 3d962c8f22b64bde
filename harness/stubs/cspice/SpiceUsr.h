// Stand-in for the CSPICE toolkit header (not installed here): types and prototypes only.
// Unless VP_SPICE_MODEL is defined (a harness supplies its own model), every call aborts.
#pragma once
#include <cstdlib>
typedef char SpiceChar; typedef const char ConstSpiceChar; typedef double SpiceDouble; typedef const double ConstSpiceDouble; typedef int SpiceInt; typedef int SpiceBoolean;
#define SPICETRUE 1
#define SPICEFALSE 0
extern "C" {
void furnsh_c(ConstSpiceChar* file);
void str2et_c(ConstSpiceChar* s, SpiceDouble* et);
void deltet_c(SpiceDouble epoch, ConstSpiceChar* eptype, SpiceDouble* delta);
SpiceDouble unitim_c(SpiceDouble epoch, ConstSpiceChar* insys, ConstSpiceChar* outsys);
void timout_c(SpiceDouble et, ConstSpiceChar* pictur, SpiceInt lenout, SpiceChar* output);
void spkezr_c(ConstSpiceChar* targ, SpiceDouble et, ConstSpiceChar* ref, ConstSpiceChar* abcorr, ConstSpiceChar* obs, SpiceDouble starg[6], SpiceDouble* lt);
void pxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble rotate[3][3]);
void sxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble xform[6][6]);
void xf2rav_c(ConstSpiceDouble xform[6][6], SpiceDouble rot[3][3], SpiceDouble av[3]);
void conics_c(ConstSpiceDouble elts[8], SpiceDouble et, SpiceDouble state[6]);
SpiceBoolean failed_c(void);
void reset_c(void);
void getmsg_c(ConstSpiceChar* option, SpiceInt lenout, SpiceChar* msg);
void erract_c(ConstSpiceChar* op, SpiceInt lenout, SpiceChar* action);
void errprt_c(ConstSpiceChar* op, SpiceInt lenout, SpiceChar* list);
#ifndef VP_SPICE_MODEL
#define VP_W __attribute__((weak))
VP_W void furnsh_c(ConstSpiceChar*) { std::abort(); }
VP_W void str2et_c(ConstSpiceChar*, SpiceDouble*) { std::abort(); }
VP_W void deltet_c(SpiceDouble, ConstSpiceChar*, SpiceDouble*) { std::abort(); }
VP_W SpiceDouble unitim_c(SpiceDouble, ConstSpiceChar*, ConstSpiceChar*) { std::abort(); }
VP_W void timout_c(SpiceDouble, ConstSpiceChar*, SpiceInt, SpiceChar*) { std::abort(); }
VP_W void spkezr_c(ConstSpiceChar*, SpiceDouble, ConstSpiceChar*, ConstSpiceChar*, ConstSpiceChar*, SpiceDouble*, SpiceDouble*) { std::abort(); }
VP_W void pxform_c(ConstSpiceChar*, ConstSpiceChar*, SpiceDouble, SpiceDouble (*)[3]) { std::abort(); }
VP_W void sxform_c(ConstSpiceChar*, ConstSpiceChar*, SpiceDouble, SpiceDouble (*)[6]) { std::abort(); }
VP_W void xf2rav_c(ConstSpiceDouble (*)[6], SpiceDouble (*)[3], SpiceDouble*) { std::abort(); }
VP_W void conics_c(ConstSpiceDouble*, SpiceDouble, SpiceDouble*) { std::abort(); }
VP_W SpiceBoolean failed_c(void) { return 0; }
VP_W void reset_c(void) {}
VP_W void getmsg_c(ConstSpiceChar*, SpiceInt, SpiceChar* m) { m[0] = 0; }
VP_W void erract_c(ConstSpiceChar*, SpiceInt, SpiceChar*) {}
VP_W void errprt_c(ConstSpiceChar*, SpiceInt, SpiceChar*) {}
#undef VP_W
#endif
}
