#pragma once
// Stand-in for the ray-tracing library: it records what it is given and hands it back to the harness.
#include "embree4/rtcore.h"
#include <vector>
struct EGeom; struct EScene { std::vector<EGeom*> geoms; int flags = 0; bool committed = false; int refs = 1; };
struct EBuf { int type; int format; const char* data; size_t stride, count; };
struct EGeom { int type = 0; std::vector<EBuf> bufs; void* user = nullptr; unsigned prims = 0, steps = 1, mask = ~0u; float t0 = 0, t1 = 1; RTCBoundsFunction bounds = nullptr; RTCIntersectFunctionN hit = nullptr; EScene* inst = nullptr; std::vector<RTCQuaternionDecomposition> xf; bool committed = false; };
static EGeom* last_geom = nullptr; static EScene* last_scene = nullptr; static int edev; static bool (*efilter)(const RTCFilterFunctionNArguments*) = nullptr;
static EGeom* eg(RTCGeometry g) { return (EGeom*)g; } static EScene* es(RTCScene s) { return (EScene*)s; }
// What the ray-tracing library takes a recorded instance to do to a point at a recorded time
struct EV { double x, y, z; };
static EV eat(const EGeom& g, unsigned k, EV p) { const RTCQuaternionDecomposition& d = g.xf[k]; double x = (double)d.scale_x * p.x + (double)d.skew_xy * p.y + (double)d.skew_xz * p.z + d.shift_x, y = (double)d.scale_y * p.y + (double)d.skew_yz * p.z + d.shift_y, z = (double)d.scale_z * p.z + d.shift_z, r = d.quaternion_r, i = d.quaternion_i, j = d.quaternion_j, q = d.quaternion_k, n = r * r + i * i + j * j + q * q;
    return EV{((r * r + i * i - j * j - q * q) * x + 2 * (i * j - r * q) * y + 2 * (i * q + r * j) * z) / n + d.translation_x, (2 * (i * j + r * q) * x + (r * r - i * i + j * j - q * q) * y + 2 * (j * q - r * i) * z) / n + d.translation_y, (2 * (i * q - r * j) * x + 2 * (j * q + r * i) * y + (r * r - i * i - j * j + q * q) * z) / n + d.translation_z}; }
extern "C" {
RTCDevice rtcNewDevice(const char*) { return (RTCDevice)&edev; }
void rtcReleaseDevice(RTCDevice) {}
enum RTCError rtcGetDeviceError(RTCDevice) { return RTC_ERROR_NONE; }
RTCScene rtcNewScene(RTCDevice) { return (RTCScene)(last_scene = new EScene()); }
void rtcReleaseScene(RTCScene s) { es(s)->refs--; }
void rtcCommitScene(RTCScene s) { es(s)->committed = true; }
void rtcSetSceneFlags(RTCScene s, enum RTCSceneFlags f) { es(s)->flags = (int)f; }
unsigned int rtcAttachGeometry(RTCScene s, RTCGeometry g) { es(s)->geoms.push_back(eg(g)); return (unsigned)es(s)->geoms.size() - 1; }
RTCGeometry rtcNewGeometry(RTCDevice, enum RTCGeometryType t) { last_geom = new EGeom(); last_geom->type = (int)t; return (RTCGeometry)last_geom; }
void rtcReleaseGeometry(RTCGeometry) {}
void rtcCommitGeometry(RTCGeometry g) { eg(g)->committed = true; }
void rtcSetGeometryUserPrimitiveCount(RTCGeometry g, unsigned int n) { eg(g)->prims = n; }
void rtcSetGeometryUserData(RTCGeometry g, void* p) { eg(g)->user = p; }
void rtcSetGeometryBoundsFunction(RTCGeometry g, RTCBoundsFunction f, void*) { eg(g)->bounds = f; }
void rtcSetGeometryIntersectFunction(RTCGeometry g, RTCIntersectFunctionN f) { eg(g)->hit = f; }
void rtcSetGeometryInstancedScene(RTCGeometry g, RTCScene s) { eg(g)->inst = es(s); es(s)->refs++; }
void rtcSetGeometryMask(RTCGeometry g, unsigned int m) { eg(g)->mask = m; }
void rtcSetGeometryTimeRange(RTCGeometry g, float a, float b) { eg(g)->t0 = a; eg(g)->t1 = b; }
void rtcSetGeometryTimeStepCount(RTCGeometry g, unsigned int n) { eg(g)->steps = n; eg(g)->xf.resize(n); }
void rtcSetGeometryTransformQuaternion(RTCGeometry g, unsigned int i, const struct RTCQuaternionDecomposition* q) { if (eg(g)->xf.size() <= i) eg(g)->xf.resize(i + 1); eg(g)->xf[i] = *q; }
void rtcSetSharedGeometryBuffer(RTCGeometry g, enum RTCBufferType t, unsigned int, enum RTCFormat f, const void* p, size_t off, size_t stride, size_t n) { eg(g)->bufs.push_back(EBuf{(int)t, (int)f, (const char*)p + off, stride, n}); }
void* rtcSetNewGeometryBuffer(RTCGeometry g, enum RTCBufferType t, unsigned int, enum RTCFormat f, size_t stride, size_t n) { char* p = new char[stride * n](); eg(g)->bufs.push_back(EBuf{(int)t, (int)f, p, stride, n}); return p; }
static void (*ehit)(EScene*, RTCRayHit*) = nullptr;
void rtcIntersect1(RTCScene s, struct RTCRayHit* r, struct RTCIntersectArguments*) { if (ehit) ehit(es(s), r); }
void rtcInvokeIntersectFilterFromGeometry(const struct RTCIntersectFunctionNArguments*, const struct RTCFilterFunctionNArguments* f) { if (efilter && !efilter(f)) f->valid[0] = 0; }
}
// A ray tracer for scenes whose instances are all unturned: each is the whole plane through its place, facing z
static int eplane_calls = 0; static void (*eplane_uv)(RTCRayHit*) = nullptr;
static void eplanes(EScene* s, RTCRayHit* h) { ++eplane_calls; for (size_t i = 0; i < s->geoms.size(); ++i) { EGeom* g = s->geoms[i]; if (!(g->mask & h->ray.mask)) continue; float z = g->xf[0].translation_z, t = (z - h->ray.org_z) / h->ray.dir_z; if (h->ray.dir_z == 0 || !(t > h->ray.tnear && t < h->ray.tfar)) continue; h->ray.tfar = t; h->hit.geomID = 0; h->hit.primID = 0; h->hit.instID[0] = (unsigned)i; h->hit.u = 0.25f; h->hit.v = 0.25f; h->hit.Ng_x = h->hit.Ng_y = 0; h->hit.Ng_z = 1; } if (eplane_uv && h->hit.geomID != RTC_INVALID_GEOMETRY_ID) eplane_uv(h); }
