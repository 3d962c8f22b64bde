//! entry: inside time=20
//! entry: clip_one time=60
//! entry: clip_two time=100 thorough=600
//! entry: clip_none time=20
//! entry: arc_line time=60
//! entry: arc_bend time=60 opts=--sqrtq
//! entry: arc_fixed time=20
//! bound: up to three planes for directions and arcs (arcs through one to three samples), two for triangles (thorough: any pair of planes); coordinates within [-2,2]
#include "vp.hpp"
#include "huira/util/logger.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/render/frustum.hpp"
using namespace huira; using F3 = Vec3<float>; using Fr = Frustum<RGB>; using Tri = Triangle<RGB>;
ENTRY inside() { unsigned n = vp_choice("n", 4); std::vector<F3> p(n); for (auto& x : p) x = vp_vec3in<float>("n", -2, 2); F3 d = vp_vec3in<float>("d", -2, 2); Fr f(p); bool in = true; for (auto& x : p) in = in && !(x.x * d.x + x.y * d.y + x.z * d.z < 0); vp_check(f.contains(d) == in, "inside means on the positive side of every plane"); vp_check(f.plane_count() == n, "planes are kept"); vp_cover("inside"); }
// the texture coordinates carry the barycentric coordinates: every attribute of a piece must be the triangle's there
static Tri mk(const F3& a, const F3& b, const F3& c, bool tan) {
    Tri t; F3 p[3] = {a, b, c}; for (int i = 0; i < 3; i++) { auto& v = t.vertices[(size_t)i]; v.position = p[i]; v.uv = Vec2<float>(i == 1, i == 2); v.normal = F3((float)i, 1, (float)(i * i)); v.albedo = RGB{0.125f * (float)(1 + i), 0.5f * (float)(i == 2), 0.25f * (float)(i == 1)}; }
    if (tan) { std::array<Tangent, 3> g; for (size_t i = 0; i < 3; i++) g[i] = Tangent{F3(1, (float)i, 0), F3((float)(i == 2), 0, (float)(i == 1))}; t.tangents = g; } return t;
}
static void eq3(const F3& a, const F3& b, const char* l) { vp_close3(a, b, 1e-4, l); }
static float pieces(const Tri& t, const std::vector<Tri>& r, const std::vector<F3>& planes, bool tan) {
    float area = 0; auto mix = [](float u, float v, auto a, auto b, auto c) { return a + u * (b - a) + v * (c - a); };
    for (auto& q : r) {
        vp_check(q.tangents.has_value() == tan, "pieces have tangents exactly if the triangle has");
        for (size_t i = 0; i < 3; i++) { auto& x = q.vertices[i]; float u = x.uv.x, v = x.uv.y; vp_check(u >= -1e-5f && v >= -1e-5f && u + v <= 1 + 1e-5f, "pieces lie within the triangle"); auto& A = t.vertices; eq3(x.position, mix(u, v, A[0].position, A[1].position, A[2].position), "positions are the triangle's"); eq3(x.normal, mix(u, v, A[0].normal, A[1].normal, A[2].normal), "normals are interpolated");
            eq3(F3(x.albedo[0], x.albedo[1], x.albedo[2]), F3(mix(u, v, 0.125f, 0.25f, 0.375f), 0.5f * v, 0.25f * u), "albedos are interpolated"); if (tan) { eq3((*q.tangents)[i].tangent, F3(1, u + 2 * v, 0), "tangents are interpolated"); eq3((*q.tangents)[i].bitangent, F3(v, 0, u), "bitangents are interpolated"); }
            for (auto& n : planes) vp_check(n.x * x.position.x + n.y * x.position.y + n.z * x.position.z >= -1e-4f, "pieces lie inside the planes"); }
        Vec2<float> a = q.vertices[0].uv, b = q.vertices[1].uv, c = q.vertices[2].uv; float d = (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); vp_check(d >= -1e-5f, "pieces keep their orientation"); area += d;
    }
    return area;
}
ENTRY clip_one() {   // a plane and its opposite split the triangle completely
    F3 n = vp_vec3in<float>("n", -1, 1), a = vp_vec3in<float>("a", -2, 2), b = vp_vec3in<float>("b", -2, 2), c = vp_vec3in<float>("c", -2, 2); bool tan = vp_bool("tangents"); Tri t = mk(a, b, c, tan); auto d = [&](const F3& p) { return n.x * p.x + n.y * p.y + n.z * p.z; };
    float da = d(a), db = d(b), dc = d(c); vp_assume(!(da == 0 && db == 0) && !(db == 0 && dc == 0) && !(da == 0 && dc == 0)); auto r = Fr({n}).clip_triangle(t), s = Fr({-n}).clip_triangle(t); float x = pieces(t, r, {n}, tan), y = pieces(t, s, {-n}, tan);
    vp_check_close(x + y, 1, 1e-4, "the two sides make up the triangle"); vp_cover("split");
}
ENTRY clip_two() {   // and two planes into four parts
    static const float G[4][6] = {{0, 0, 1, 0, 0, 1}, {-1, -0.5f, 1, 0.25f, 0.5f, 1}, {1, 1, -1, 0.5f, 0, -1}, {-1, 0, 0, -1, 1, 0.75f}}; const float* g = G[vp_choice("triangle", 4)]; float z = vp_choice("flat", 2) ? 1.f : 2.f; Tri t = mk(F3(g[0], g[1], 1), F3(g[2] * z, g[3] * z, z), F3(g[4], g[5], 1), true);
    F3 n(1, 0, vp_inf("p", -1, 1)), m(0.25f, 1, vp_inf("q", -1, 1)); unsigned s = vp_choice("signs", 4); if (s & 1) n = -n; if (s & 2) m = -m; for (auto& v : t.vertices) { float d = n.x * v.position.x + n.z * v.position.z, e = m.x * v.position.x + m.y * v.position.y + m.z * v.position.z; vp_assume((d >= 1e-2f || d <= -1e-2f) && (e >= 1e-2f || e <= -1e-2f)); }
    float one = pieces(t, Fr({n}).clip_triangle(t), {n}, true), in = pieces(t, Fr({n, m}).clip_triangle(t), {n, m}, true), out = pieces(t, Fr({n, -m}).clip_triangle(t), {n, -m}, true); vp_check_close(in + out, one, 1e-4, "the second plane splits what the first leaves"); vp_cover("four");
}
ENTRY clip_none() { F3 a = vp_vec3in<float>("a", -2, 2), b = vp_vec3in<float>("b", -2, 2), c = vp_vec3in<float>("c", -2, 2); Tri t = mk(a, b, c, vp_bool("tangents")); auto r = Fr().clip_triangle(t); vp_check(r.size() == 1 && r[0].tangents.has_value() == t.tangents.has_value(), "no planes, nothing clipped"); if (r.size() == 1) for (size_t i = 0; i < 3; i++) { eq3(r[0].vertices[i].position, t.vertices[i].position, "vertices are kept"); eq3(r[0].vertices[i].normal, t.vertices[i].normal, "normals are kept"); }
    F3 n(0, 0, 1); bool allin = a.z > 0 && b.z > 0 && c.z > 0, allout = a.z < 0 && b.z < 0 && c.z < 0; auto q = Fr({n}).clip_triangle(t); if (allin) vp_check(q.size() == 1, "a triangle inside stays whole"); if (allout) vp_check(q.empty(), "a triangle outside disappears"); vp_cover("none"); }
// intervals of an arc: exactly the times inside all planes
template <class F> static void intervals(const std::vector<std::pair<float, float>>& r, F val, double tol) {   // val(t): smallest signed distance
    float prev = -1; for (auto& i : r) { vp_check(i.first >= 0 && i.second <= 1 && i.first < i.second, "intervals lie within the exposure"); vp_check(i.first > prev, "intervals come in order and apart"); prev = i.second; }
    float t = vp_inf("t", 0, 1); bool in = false, deep = false; for (auto& i : r) { in = in || (t >= i.first - 1e-4f && t <= i.second + 1e-4f); deep = deep || (t >= i.first + 1e-4f && t <= i.second - 1e-4f); } auto [inside, outside] = val(t, tol);
    if (inside) vp_check(in, "what is inside is kept"); if (outside) vp_check(!deep, "what is outside is cut"); vp_cover("interval");
}
ENTRY arc_line() {   // the plane distances of a straight arc change linearly
    unsigned k = 1 + vp_choice("planes", 3); F3 a = vp_vec3in<float>("a", -1, 1), b = vp_vec3in<float>("b", -1, 1); std::vector<F3> n{F3(1, 0, 0), F3(0, -1, 0), F3(0, 0, 0.5f)}; n.resize(k); if (k < 3) a.z = b.z = 1;
    intervals(Fr(n).clip_arc(TrajectoryArc({a, b})), [&](float t, double tol) { bool i = true, o = false; F3 p = a + t * (b - a); for (auto& m : n) { float d = m.x * p.x + m.y * p.y + m.z * p.z; i = i && d > tol; o = o || d < -tol; } return std::pair<bool, bool>(i, o); }, 1e-3);
}
ENTRY arc_bend() {   // a bent arc may leave and come back, or only pass through
    float k = vp_inf("k", 0.25, 1), r1 = vp_inf("r1", -1, 2), w = vp_inf("w", 1.0 / 64, 2), r2 = r1 + w; if (vp_bool("flip")) k = -k; float c = vp_inf("c", -1, 2); bool two = vp_bool("two"); auto f = [&](float t) { return k * (t - r1) * (t - r2); }; auto P = [&](float t) { return F3(f(t), t - c, 1); }; std::vector<F3> n{F3(1, 0, 0)}; if (two) n.push_back(F3(0, 1, 0));
    intervals(Fr(n).clip_arc(TrajectoryArc({P(0), P(0.5f), P(1)})), [&](float t, double) { float e = 5e-4f; bool mid = t > r1 + e && t < r2 - e, out = t < r1 - e || t > r2 + e; bool i1 = k > 0 ? out : mid, o1 = k > 0 ? mid : out; return std::pair<bool, bool>(i1 && (!two || t > c + e), o1 || (two && t < c - e)); }, 0);
}
ENTRY arc_fixed() { F3 a = vp_vec3in<float>("a", -1, 1), n = vp_vec3in<float>("n", -1, 1); auto r = Fr({n}).clip_arc(TrajectoryArc({a})); float d = n.x * a.x + n.y * a.y + n.z * a.z; bool in = !(d < 0); vp_check(r.size() == (in ? 1u : 0u), "a fixed direction is visible all the time or never"); for (auto& i : r) vp_check(i.first == 0 && i.second == 1, "all the time"); auto q = Fr().clip_arc(TrajectoryArc({a, n})); vp_check(q.size() == 1 && q[0].first == 0 && q[0].second == 1, "no planes, nothing cut"); vp_cover("fixed"); }
