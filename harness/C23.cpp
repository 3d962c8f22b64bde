// C23: default tangent frames and secondary ray origins
//! entry: frame time=20
//! entry: offset_f mode=fp time=60
//! entry: offset_d mode=fp time=60
//! entry: rays time=20
//! bound: any unit normal; any position up to 1e30 and any normal of components within [-1,1], bit-precise in float and double
#include "vp.hpp"
#include "huira/util/logger.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/geometry/ray.hpp"
#include "huira/render/interaction.hpp"
using namespace huira; using F3 = Vec3<float>;
ENTRY frame() {
    F3 n = vp_unit3<float>("n"), t(9), b(9); if (vp_bool("plane")) n.z = vp_bool("neg") ? -0.0f : 0.0f; vp_assume_exact(n.x * n.x + n.y * n.y + n.z * n.z == 1); build_default_tangent_frame(n, t, b);
    vp_check_close(glm::dot(t, t), 1, 1e-5, "the tangent has unit length"); vp_check_close(glm::dot(b, b), 1, 1e-5, "the bitangent has unit length"); vp_check_close(glm::dot(t, b), 0, 1e-5, "tangent and bitangent are perpendicular"); vp_check_close(glm::dot(t, n), 0, 1e-5, "the tangent is tangential"); vp_close3(glm::cross(n, t), b, 1e-5, "the frame is right-handed"); vp_cover("frame");
}
template <class T, class I> static void off(double thr, double ulps, double lin) {
    Vec3<T> p, n; int c = vp_choice("axis", 3); for (int i = 0; i < 3; ++i) { p[i] = i == c ? (T)vp_in("p", -1e30, 1e30) : (T)0.75; n[i] = i == c ? (T)vp_in("n", -1, 1) : (T)(i == 0 ? 0.5 : -0.5); }
    Vec3<T> q = offset_intersection_<T>(p, n); T x = p[c], m = n[c], d = q[c] - x; vp_check(m > 0 ? q[c] >= x : m < 0 ? q[c] <= x : q[c] == x, "the origin moves to the normal's side"); 
    T a = x < 0 ? -x : x, s = m < 0 ? -m : m, e = d < 0 ? -d : d; I bx, bq; memcpy(&bx, &x, sizeof x); memcpy(&bq, &q[c], sizeof x); I k = bx > bq ? bx - bq : bq - bx; if (a >= (T)thr) vp_check(k <= (I)(ulps * 1.01) && (k >= (I)(ulps / 8) || s < (T)0.25), "far from zero it moves by a share of the coordinate"); if (a < (T)thr && s >= (T)0.25) vp_check(e >= (T)(lin * 0.2), "near zero it moves by a fixed distance"); if (a < (T)thr) vp_check(e <= (T)(lin * 1.1), "and by no more");
    for (int i = 0; i < 3; ++i) if (i != c) { T v = q[i] - p[i]; vp_check(i == 0 ? v > 0 : v < 0, "every coordinate is offset by its own normal component"); } vp_cover("offset");
}
ENTRY offset_f() { off<float, int32_t>(1.0 / 32, 256, 1.0 / 65536); }
ENTRY offset_d() { off<double, int64_t>(1.0 / 64, 65536, 1.0 / 4294967296.0); }
ENTRY rays() { F3 o = vp_vec3in<float>("o", -1e6, 1e6), d = vp_vec3in<float>("d", -1, 1); Ray<RGB> r(o, d); float t = vp_inf("t", 0, 100); vp_close3(r.at(t), o + t * d, 1e-5, "points along a ray"); vp_check(r.origin() == o && r.direction() == d, "rays keep what they are given"); for (int i = 0; i < 3; ++i) if (d[i] != 0) vp_check_close(r.reciprocal_direction()[i] * d[i], 1, 1e-5, "reciprocals"); for (int i = 0; i < 3; ++i) if (d[i] == 0) vp_check(!(r.reciprocal_direction()[i] == 0), "no reciprocal of zero"); Ray<RGB> z, y(z.origin(), z.direction()); vp_check(z.reciprocal_direction() == y.reciprocal_direction(), "the default ray is consistent"); HitRecord h; vp_check(!h.hit(), "no hit by default"); vp_cover("ray"); }
