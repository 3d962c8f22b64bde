//! entry: passes time=60
//! entry: smooth time=60
//! entry: exact_quadratic time=40
//! entry: reject time=20
//! entry: cross_linear time=40
//! entry: cross_quadratic time=120 opts=--sqrtq
//! entry: cross_slow time=60 opts=--sqrtq
//! entry: cross_none time=30
//! entry: cross_spline time=60 opts=--sqrtq
//! bound: arcs through one to five samples (thorough: seven), directions and plane normals within [-1,1], times within [-1,2]; plane crossings of arcs through up to three samples
#include "vp.hpp"
#include "huira/util/logger.hpp"
#include "huira/render/trajectory_arc.hpp"
using namespace huira; using F3 = Vec3<float>;
static std::vector<F3> pts(unsigned n, double s = 1) { std::vector<F3> v(n); for (auto& p : v) p = vp_vec3in<float>("p", -s, s); return v; }
static void eq3(const F3& a, const F3& b, const char* l) { vp_close3(a, b, 1e-4, l); }
ENTRY passes() {   // the arc passes its samples at evenly spaced times
    unsigned n = 1 + vp_choice("n", 6); auto v = pts(n); TrajectoryArc a(v); vp_check(a.sample_count() == n, "the arc knows its samples"); for (unsigned i = 0; i < n; i++) eq3(a.evaluate(n == 1 ? vp_inf("t", 0, 1) : (float)i / (float)(n - 1)), v[i], "the arc passes every sample at its time"); vp_cover("passes");
}
ENTRY exact_quadratic() {   // up to three samples determine the curve
    auto v = pts(3); float t = vp_inf("t", 0, 1); std::vector<F3> two{v[0], v[1]}; eq3(TrajectoryArc(two).evaluate(t), v[0] + t * (v[1] - v[0]), "two samples give the straight line");
    std::vector<F3> q{v[0], v[0] + 0.5f * v[1] + 0.25f * v[2], v[0] + v[1] + v[2]}; eq3(TrajectoryArc(q).evaluate(t), v[0] + t * v[1] + t * t * v[2], "three samples give the parabola");
    unsigned n = 4 + vp_choice("n", 2); std::vector<F3> l; for (unsigned i = 0; i < n; i++) l.push_back(v[0] + ((float)i / (float)(n - 1)) * v[1]); eq3(TrajectoryArc(l).evaluate(t), v[0] + t * v[1], "samples on a line give the line"); vp_cover("exact");
}
ENTRY smooth() {   // more samples give the natural cubic spline: smooth across samples, straight at the ends
    unsigned n = 4 + vp_choice("n", 2); auto v = pts(n); TrajectoryArc a(v); float h = 1.0f / (float)(n - 1), e = h / 4; auto at = [&](unsigned s, int k) { return a.evaluate((float)s * h + (float)k * e * 0.999f); };
    // four interior points of a segment determine its cubic
    auto diff = [&](unsigned s, F3& d0, F3& c0, F3& d1, F3& c1) { float g = e * 0.999f; F3 p0 = v[s], p1 = at(s, 1), p2 = at(s, 2), p3 = at(s, 3); F3 k1 = (p1 - p0) / g, k2 = (p2 - p1) / g, k3 = (p3 - p2) / g, q1 = (k2 - k1) / (2 * g), q2 = (k3 - k2) / (2 * g), r = (q2 - q1) / (3 * g);
        auto D = [&](float u) { return k1 + q1 * (2 * u - g) + r * (3 * u * u - 6 * g * u + 2 * g * g); }; auto C = [&](float u) { return 2.0f * q1 + r * (6 * u - 6 * g); }; d0 = D(0); c0 = C(0); d1 = D(h); c1 = C(h); F3 end = p0 + k1 * h + q1 * (h * (h - g)) + r * (h * (h - g) * (h - 2 * g)); vp_close3(end, v[s + 1], 1e-3, "each piece reaches the next sample"); };
    F3 pd{0}, pc{0}; for (unsigned s = 0; s + 1 < n; s++) { F3 d0, c0, d1, c1; diff(s, d0, c0, d1, c1); if (s) { vp_close3(d0, pd, 1e-2, "the velocity is continuous"); vp_close3(c0, pc, 1e-2, "the acceleration is continuous"); } else vp_close3(c0, F3(0), 1e-2, "no acceleration at the start"); pd = d1; pc = c1; }
    vp_close3(pc, F3(0), 1e-2, "no acceleration at the end"); float t = vp_inf("t", -1, 0); eq3(a.evaluate(t), v[0], "before the shutter opens: the first sample"); eq3(a.evaluate(1 - t), v[n - 1], "after it closes: the last sample"); vp_cover("smooth");
}
ENTRY reject() { vp_check(vp_throws([] { TrajectoryArc a(std::vector<F3>{}); }), "an arc needs a sample"); std::vector<F3> one{vp_vec3in<float>("p", -1, 1)}; vp_check(TrajectoryArc(one).find_plane_crossings(vp_vec3in<float>("n", -1, 1)).empty(), "a fixed direction crosses nothing"); vp_cover("reject"); }
// n dot c(t) for the curve through the samples, as the samples determine it
static double val(const std::vector<F3>& v, const F3& n, double t) { double f[3]; for (size_t i = 0; i < v.size(); i++) f[i] = (double)n.x * v[i].x + (double)n.y * v[i].y + (double)n.z * v[i].z; return v.size() == 2 ? f[0] + t * (f[1] - f[0]) : f[0] + t * (4 * f[1] - 3 * f[0] - f[2]) + t * t * (2 * f[0] - 4 * f[1] + 2 * f[2]); }
static void cross(const std::vector<F3>& v, const F3& n, double s) {
    auto r = TrajectoryArc(v).find_plane_crossings(n); vp_check(r.size() < v.size(), "no more crossings than the degree allows"); double b = -1;
    for (float t : r) { vp_check(t >= 0 && t <= 1, "crossings lie within the exposure"); vp_check(t >= b, "crossings come in order"); b = t; double x = val(v, n, t); vp_check(x <= 1e-3 * s && x >= -1e-3 * s, "the arc is on the plane where it crosses"); }
    float p = vp_inf("t1", 0, 1), q = vp_inf("t2", 0, 1); vp_assume(p < q); double x = val(v, n, p), y = val(v, n, q); vp_assume((x > 1e-3 * s && y < -1e-3 * s) || (x < -1e-3 * s && y > 1e-3 * s));
    bool any = false; for (float t : r) any = any || (t >= p && t <= q); vp_check(any, "a change of side is a crossing"); vp_cover("crossing");
}
ENTRY cross_linear() { auto v = pts(2); cross(v, F3(1, -2, 0.5f), 1); }
// the parabola k (t-r1)(t-r2) seen by the plane: the arc crosses at its roots within the exposure and nowhere else
static void roots(float sc) {
    float k = sc * vp_inf("k", 0.25, 1), r1 = vp_inf("r1", -1, 2), w = vp_inf("w", 1.0 / 64, 2); float r2 = r1 + w; bool flip = vp_bool("flip"); if (flip) k = -k;
    auto f = [&](float t) { return k * (t - r1) * (t - r2); }; std::vector<F3> v{F3(0.25f, f(0), 1), F3(0.5f, f(0.5f), 1), F3(-0.5f, f(1), 1)};
    auto c = TrajectoryArc(v).find_plane_crossings(F3(0, 1, 0)); auto near = [](float a, float b) { return a - b <= 2e-4f && b - a <= 2e-4f; };
    for (float t : c) { vp_check(near(t, r1) || near(t, r2), "crossings are the roots"); vp_check(t >= 0 && t <= 1, "crossings lie within the exposure"); } for (size_t i = 1; i < c.size(); i++) vp_check(c[i - 1] < c[i], "crossings come in order");
    for (float r : {r1, r2}) if (r >= 1e-3f && r <= 1 - 1e-3f) { bool any = false; for (float t : c) any = any || near(t, r); vp_check(any, "no crossing is lost"); } vp_cover("roots");
}
ENTRY cross_quadratic() { roots(1); }
ENTRY cross_slow() { roots(1e-5f); }
ENTRY cross_none() { float k = vp_inf("k", 0.25, 1), m = vp_inf("m", -1, 2), e = vp_inf("e", 1.0 / 64, 1); auto f = [&](float t) { return k * ((t - m) * (t - m) + e); }; vp_check(TrajectoryArc({F3(f(0), 0, 1), F3(f(0.5f), 1, 1), F3(f(1), 2, 1)}).find_plane_crossings(F3(1, 0, 0)).empty(), "an arc that stays on one side crosses nothing"); vp_cover("none"); }
// smooth arcs (four samples and more): every change of side has its crossing, whatever the size of the motion
ENTRY cross_spline() {
    static const float shape[8][5] = {{1, -1, 1, -1, 0}, {-0.5f, -0.171875f, 0.15625f, 0.5f, 0}, {-1, 0.25f, 0.5f, 0.625f, 0}, {0.25f, -0.5f, -0.125f, 0.75f, 0}, {1, 0.5f, -0.25f, -2, 0}, {-1, -1, -0.5f, 1, 0}, {0.5f, -0.5f, 0.25f, -0.25f, 0.5f}, {-1, -0.51f, -0.01f, 0.5f, 1}};
    unsigned s = vp_choice("shape", 8), n = s >= 6 ? 5 : 4; float k = vp_bool("slow") ? 1e-5f * vp_inf("k", 0.25, 1) : vp_inf("k", 0.25, 1); std::vector<F3> v, u; for (unsigned i = 0; i < n; i++) { v.push_back(F3(0.25f, k * shape[s][i], 1)); u.push_back(F3(0.25f, shape[s][i], 1)); }
    TrajectoryArc a(v), b(u); auto c = a.find_plane_crossings(F3(0, 1, 0)); for (float t : c) { vp_check(t >= 0 && t <= 1, "crossings lie within the exposure"); float y = b.evaluate(t).y; vp_check(y <= 1e-3f && y >= -1e-3f, "the arc is on the plane where it crosses"); } for (size_t i = 1; i < c.size(); i++) vp_check(c[i - 1] < c[i], "crossings come in order");
    unsigned turns = 0; float p = b.evaluate(0).y; for (int i = 1; i <= 24; i++) { float t = (float)i / 24.f, y = b.evaluate(t).y; if ((p < -1e-3f && y > 1e-3f) || (p > 1e-3f && y < -1e-3f)) { bool any = false; for (float x : c) any = any || (x > t - 1.f / 24 && x < t); vp_check(any, "a change of side is a crossing"); } if (p * y < 0) turns++; p = y; } vp_check(c.size() >= turns, "as many crossings as changes of side"); vp_cover("spline");
}
