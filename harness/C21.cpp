//! entry: on_surface time=60 opts=--sqrtq,--freeangles
//! entry: nearest time=60 opts=--sqrtq,--freeangles
//! entry: normal time=60 opts=--sqrtq,--freeangles
//! entry: uv_frame time=60
//! entry: transparency time=60 opts=--sqrtq,--freeangles
//! entry: bounding time=20
//! bound: radii 0.5 to 2 by any factor, ray origins within [-4,4], any direction (nearest: from any surface point back along six directions, four shapes); exact real arithmetic
#include "vp.hpp"
#include "embree.hpp"
#include "huira/util/logger.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/geometry/ellipsoid.hpp"
using namespace huira; using F3 = Vec3<float>; using units::Meter;
struct E : Ellipsoid<RGB> { E(float x, float y, float z) : Ellipsoid<RGB>(Meter(x), Meter(y), Meter(z)) { this->set_device(std::make_shared<EmbreeDevice>()); g = es(this->blas())->geoms.at(0); } EGeom* g; };
struct Hit { bool hit; float t, u, v; F3 n; float tfar; };
static Hit shoot(const E& e, const F3& o, const F3& d, float near, float far) {
    RTCRayHit rh{}; rh.ray.org_x = o.x; rh.ray.org_y = o.y; rh.ray.org_z = o.z; rh.ray.dir_x = d.x; rh.ray.dir_y = d.y; rh.ray.dir_z = d.z; rh.ray.tnear = near; rh.ray.tfar = far; rh.hit.geomID = RTC_INVALID_GEOMETRY_ID; int valid = -1; RTCRayQueryContext ctx; rtcInitRayQueryContext(&ctx);
    RTCIntersectFunctionNArguments a{}; a.valid = &valid; a.geometryUserPtr = e.g->user; a.primID = 0; a.geomID = 7; a.context = &ctx; a.rayhit = (RTCRayHitN*)&rh; a.N = 1; e.g->hit(&a);
    return {rh.hit.geomID == 7, rh.ray.tfar, rh.hit.u, rh.hit.v, F3(rh.hit.Ng_x, rh.hit.Ng_y, rh.hit.Ng_z), rh.ray.tfar};
}
static double lev(const F3& p, const F3& r) { double x = (double)p.x / r.x, y = (double)p.y / r.y, z = (double)p.z / r.z; return x * x + y * y + z * z; }
static F3 radii() { return F3(vp_inf("rx", 0.5, 2), vp_inf("ry", 0.5, 2), vp_inf("rz", 0.5, 2)); }
static const float SD[4][6] = {{1, 1, 1, 0, 0, -1}, {2, 1, 0.5f, 1.2f, 0, 0.4f}, {0.5f, 2, 1, -0.3f, 1.6f, 0}, {1, 2, 0.5f, 1, 4, -1}};   // shapes and directions
static void pick(F3& r, F3& d) { const float* s = SD[vp_choice("shape", 4)]; r = F3(s[0], s[1], s[2]); d = F3(s[3], s[4], s[5]); if (vp_bool("back")) d = -d; }
static float vp_root(float c) { vp_hint(c); return c; }
static F3 unit() { Vec2<float> q = vp_vec2in<float>("q", -1, 1); vp_assume_exact(q.x * q.x + q.y * q.y == 1); switch (vp_choice("circle", 3)) { case 0: return F3(q.x, 0.6f * q.y, 0.8f * q.y); case 1: return F3(q.y, q.x, 0); default: return F3(-0.8f * q.x, 0.6f * q.x, q.y); } }   // points of three great circles
static F3 origin() { static const float C[3] = {0, 0.375f, -1.5f}; return F3(C[vp_choice("ox", 3)], vp_inf("oy", -4, 4), vp_inf("oz", -4, 4)); }
ENTRY on_surface() {   // whatever is reported is a point of the surface, within the ray's extent
    F3 r, d; pick(r, d); F3 o = origin(); float a = vp_inf("near", 0, 4), b = vp_bool("open") ? INFINITY : vp_inf("far", 0, 8); E e(r.x, r.y, r.z); Hit h = shoot(e, o, d, a, b);
    if (h.hit) { vp_check(h.t >= a && h.t <= b, "hits lie within the ray's extent"); vp_check_close(lev(o + h.t * d, r), 1, 1e-4, "hits lie on the surface"); } else vp_check(h.tfar == b, "a miss leaves the ray alone"); vp_cover("shot");
}
ENTRY nearest() {   // no surface point is missed or overtaken
    F3 r, d; pick(r, d); F3 u = unit(); F3 p(u.x * r.x, u.y * r.y, u.z * r.z); float c = vp_root(u.x * d.x / r.x + u.y * d.y / r.y + u.z * d.z / r.z); vp_assume(c >= 0.05f || c <= -0.05f); float t = vp_inf("t", -4, 4), a = vp_inf("near", 0, 4), b = vp_inf("far", 0, 8); vp_assume(t >= a + 1e-3f && t <= b - 1e-3f); E e(r.x, r.y, r.z); Hit h = shoot(e, p - t * d, d, a, b);
    vp_check(h.hit, "no surface point is missed"); if (h.hit) vp_check(h.t <= t + 1e-3f, "the nearest surface point is found"); vp_cover("found");
}
static int accepted; static bool rej_first(const RTCFilterFunctionNArguments*) { return accepted++ > 0; } static bool rej_all(const RTCFilterFunctionNArguments*) { return false; }
ENTRY normal() {   // the geometric normal is perpendicular to the surface, outwards
    F3 r, d; pick(r, d); F3 u = unit(); F3 p(u.x * r.x, u.y * r.y, u.z * r.z); E e(r.x, r.y, r.z); vp_assume(vp_root(u.x * d.x / r.x + u.y * d.y / r.y + u.z * d.z / r.z) <= -0.05f); Hit h = shoot(e, p - d, d, vp_inf("near", -1, 0.9f), vp_inf("far", 1.1f, 100)); vp_check(h.hit, "seen from outside"); if (h.hit) { F3 g(u.x / r.x, u.y / r.y, u.z / r.z); vp_close3(glm::cross(h.n, g), F3(0), 1e-3, "the normal is perpendicular to the surface"); vp_check(glm::dot(h.n, g) > 0, "the normal points outwards"); }
    F3 w(d.x / r.x, d.y / r.y, d.z / r.z); float c = u.x * w.x + u.y * w.y + u.z * w.z; accepted = 0; efilter = rej_first; Hit k = shoot(e, p - d, d, 0, 100); efilter = nullptr; vp_check_close(k.t, 1 - 2 * c / (w.x * w.x + w.y * w.y + w.z * w.z), 1e-3, "where the near side is transparent the far side is hit"); vp_cover("normal");
}
ENTRY uv_frame() {   // texture coordinates give back the point, its normal and an orthonormal frame
    F3 r = radii(), u = vp_unit3<float>("u"); F3 p(u.x * r.x, u.y * r.y, u.z * r.z); vp_assume(u.x * u.x + u.y * u.y >= 1e-3f); E e(r.x, r.y, r.z); F3 o(2 * p.x, 2 * p.y, 2 * p.z); Hit h = shoot(e, o, -p, vp_inf("near", -1, 0.9f), vp_inf("far", 1.1f, 100)); vp_check(h.hit, "seen from outside"); if (!h.hit) return;
    vp_check_close(h.t, 1, 1e-4, "found where it is"); vp_check(h.u >= 0 && h.u <= 1.0001f && h.v >= 0 && h.v <= 1.0001f, "texture coordinates lie within the unit square"); HitRecord hr; hr.t = h.t; hr.u = h.u; hr.v = h.v; hr.Ng = h.n; Interaction<RGB> i; e.compute_surface_interaction(hr, i);
    vp_close3(i.position, p, 1e-3, "the interaction is at the hit point"); vp_check(i.uv.x == h.u && i.uv.y == h.v && e.compute_uv(hr).x == h.u && e.compute_uv(hr).y == h.v, "texture coordinates are kept");
    F3 g(u.x / r.x, u.y / r.y, u.z / r.z); vp_close3(glm::cross(i.normal_g, g), F3(0), 1e-3, "the normal is perpendicular to the surface"); vp_check(glm::dot(i.normal_g, g) > 0, "the normal points outwards"); vp_check_close(glm::dot(i.normal_g, i.normal_g), 1, 1e-3, "the normal has unit length"); vp_close3(i.normal_s, i.normal_g, 1e-4, "shading and geometric normal agree");
    vp_check_close(glm::dot(i.tangent, i.tangent), 1, 1e-3, "the tangent has unit length"); vp_check_close(glm::dot(i.tangent, i.normal_g), 0, 1e-3, "the tangent is tangential"); vp_check_close(glm::dot(i.tangent, F3(-p.y / r.y * r.x, p.x / r.x * r.y, 0)), glm::length(F3(-p.y / r.y * r.x, p.x / r.x * r.y, 0)), 1e-3, "the tangent follows the longitude"); vp_close3(i.bitangent, glm::cross(i.normal_g, i.tangent), 1e-3, "the frame is right-handed"); vp_cover("frame");
}
ENTRY transparency() {   // where the near side is transparent, the far side is seen
    F3 r, d; pick(r, d); F3 o = origin(); float b = vp_inf("far", 0, 16); E e(r.x, r.y, r.z); efilter = nullptr; Hit h = shoot(e, o, d, 0, b); accepted = 0; efilter = rej_first; Hit k = shoot(e, o, d, 0, b); efilter = rej_all; Hit n = shoot(e, o, d, 0, b); efilter = nullptr;
    vp_check(!n.hit || n.tfar == b, "a wholly transparent ellipsoid leaves the ray alone"); vp_check(n.tfar == b, "rejected hits restore the ray's extent"); if (!h.hit) { vp_check(k.tfar == b, "nothing behind a miss"); } else if (k.tfar < b) { vp_check(k.t >= h.t, "the far side is behind the near side"); vp_check_close(lev(o + k.t * d, r), 1, 1e-4, "the far side lies on the surface"); }
    vp_cover("transparent");
}
ENTRY bounding() { F3 r = radii(), u = vp_unit3<float>("u"); E e(r.x, r.y, r.z); RTCBounds b; RTCBoundsFunctionArguments a{}; a.geometryUserPtr = e.g->user; a.bounds_o = &b; e.g->bounds(&a); F3 p(u.x * r.x, u.y * r.y, u.z * r.z); float s = 1e-5f; vp_check(p.x >= b.lower_x - s && p.x <= b.upper_x + s && p.y >= b.lower_y - s && p.y <= b.upper_y + s && p.z >= b.lower_z - s && p.z <= b.upper_z + s, "the bounding box contains the surface"); vp_check(e.g->prims == 1 && e.g->committed && e.g->type == (int)RTC_GEOMETRY_TYPE_USER, "one primitive is registered"); vp_check(e.radii().x == r.x && e.radii().y == r.y && e.radii().z == r.z, "radii are kept"); vp_cover("box"); }
