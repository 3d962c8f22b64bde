// C33: what a camera's view of a scene contains
//! entry: placed time=60
//! entry: moving time=60
//! entry: turning time=60
//! entry: rays time=40
//! entry: shading time=60
//! entry: shadow time=60
//! libs: -lassimp -lfftw3f -lpng -lturbojpeg -ltiff -lcfitsio
//! assume: the ray-tracing library is a stand-in: it records the scene it is given, and rays hit what the harness says
//! bound: rotations from a table, any positions, velocities and scales; up to three times and four instances; two surfaces between a point and its light; exact real arithmetic
#define CAMRES 2
#include "spicemodel/spice_model.hpp"
#include "cam.hpp"
#include "embree.hpp"
#include "huira/huira.hpp"
using S = RGB; using D3 = Vec3<double>; using T = Transform<double>; using SV = SceneView<S>; using HI = InstanceHandle<S>;
static const double TQ[4][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {0, 1, 0, 0, 0, 1, 1, 0, 0}, {0.6, 0.8, 0, -0.8, 0.6, 0, 0, 0, 1}, {0.36, 0.48, 0.8, -0.8, 0.6, 0, -0.48, -0.64, 0.6}};
static Rotation<double> turn(int i) { const double* q = TQ[i]; return Rotation<double>::from_local_to_parent(Mat3<double>(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8])); }
static D3 vec(const char* n, double m) { return vp_vec3in<double>(n, -m, m); }
static D3 back(const Rotation<double>& r, D3 v) { D3 o; for (int k = 0; k < 3; ++k) { D3 e(0); e[k] = 1; o[k] = glm::dot(r * e, v); } return o; }
static void init() { spice::lsk_loaded.store(true); sm::body = [](const char*, double, double* s) { for (int k = 0; k < 6; ++k) s[k] = 0; }; sm::frame = [](const char*, double, double (*M)[3], double* w) { for (int i = 0; i < 3; ++i) { w[i] = 0; for (int j = 0; j < 3; ++j) M[i][j] = i == j; } }; }
static EScene* tlas; static void spy(EScene* s, RTCRayHit*) { tlas = s; }
static MeshHandle<S> tri(Scene<S>& sc, F3 n = F3(0, 0, 1), float y = 1) { VertexBuffer<S> v(3); v[0].position = F3(0, 0, 0); v[1].position = F3(1, 0, 0); v[2].position = F3(0, y, 0); for (auto& q : v) q.normal = n; return sc.add_mesh({0, 1, 2}, v); }
static const EBuf* vertices(const EGeom* g) { for (auto& b : g->inst->geoms[0]->bufs) if (b.type == RTC_BUFFER_TYPE_VERTEX) return &b; return nullptr; }
static int kind(const EGeom* g) { const EBuf* b = vertices(g); if (!b) return -1; return g->inst->geoms[0]->type == RTC_GEOMETRY_TYPE_SPHERE_POINT ? 0 : (int)((const float*)(b->data + 2 * b->stride))[1]; }   // 0: light, else the mesh's height
static D3 d3(F3 v) { return D3(v.x, v.y, v.z); } static D3 d3(EV v) { return D3(v.x, v.y, v.z); }
struct Rend : Renderer<S> { using Renderer<S>::get_primitives; using Renderer<S>::get_lights; using Renderer<S>::render_unresolved_; };
// the system's random numbers: these views must not depend on them
void std::random_device::_M_init(const std::string&) {} void std::random_device::_M_fini() {} unsigned std::random_device::_M_getval() { return 5; }
static Ray<S> along(F3 o, F3 d) { return Ray<S>(o, d); }
static SV view(Scene<S>& sc, HI cam, double a = 7, double b = 7, std::size_t n = 1, ObservationMode m = ObservationMode::TRUE_STATE) { return SV(sc, Interval{Time::from_et(a), Time::from_et(b)}, cam, m, n); }
static void look(const SV& v, unsigned mask = ~0u) { ehit = spy; tlas = nullptr; (void)v.intersect(along(F3(0), F3(0, 0, -1)), 0.5f, mask); ehit = nullptr; }
ENTRY placed() {   // everything is where it is relative to the camera, once each
    init(); Scene<S> sc; auto A = tri(sc), B = tri(sc, F3(0, 0, 1), 2); auto pa = sc.add_primitive(A), pb = sc.add_primitive(B); float r = vp_inf("radius", 0.1f, 10); auto L = sc.new_sphere_light(units::Meter((double)r), units::Watt(1.)); auto C = sc.new_camera_model();
    D3 pc = vec("pc", 100), pf = vec("pf", 100), p[4]; Rotation<double> Rc = turn(vp_choice("Rc", 2) * 2 + 1), Rf = turn(2 + vp_choice("Rf", 2)), Ri = turn(3); double s = vp_in("s", 0.1, 4); D3 si = vp_vec3in<double>("si", 0.1, 10); si.x = 5; auto cam = sc.root.new_instance(C); cam.set_position(units::Meter(pc.x), units::Meter(pc.y), units::Meter(pc.z)); cam.set_rotation(Rc); auto f = sc.root.new_subframe(); f.set_position(units::Meter(pf.x), units::Meter(pf.y), units::Meter(pf.z)); f.set_rotation(Rf); f.set_scale(s);
    HI in[4] = {sc.root.new_instance(pa), f.new_instance(pb), f.new_instance(pa), f.new_instance(L)}; for (int k = 0; k < 4; ++k) { p[k] = vec("p", 100); in[k].set_position(units::Meter(p[k].x), units::Meter(p[k].y), units::Meter(p[k].z)); } in[1].set_rotation(Ri); in[0].set_scale(si.x, si.y, si.z); SV v = view(sc, cam); look(v); vp_check(tlas && tlas->committed, "the scene is handed to the ray tracer"); vp_check(tlas->geoms.size() == 4, "everything placed is there, once");
    Rotation<double> K = Rc * C.get()->sensor_rotation(); int used = 0, w = vp_choice("point", 4); EV q{w == 0 ? 1. : 0., w == 1 ? 1. : 0., w == 2 ? 1. : 0.}; D3 x(q.x, q.y, q.z); for (int k = 0; k < 4; ++k) { D3 want = k ? pf + Rf * ((p[k] + (k == 1 ? Ri * x : x)) * s) : p[0] + x * si; want = back(K, want - pc); for (EGeom* e : tlas->geoms) { int mine = k == 3 ? 0 : k == 1 ? 2 : 1; if (kind(e) != mine || (mine == 1 && (e->xf[0].scale_x == 5) != (k == 0))) continue; ++used; vp_close3(d3(eat(*e, 0, q)), want, 1e-3, "everything is where it is relative to the camera"); vp_check(e->committed && e->inst->committed, "what is placed is complete"); vp_check(e->steps == 1, "still views have one time"); if (k == 3) { const float* c = (const float*)vertices(e)->data; vp_check(c[0] == 0 && c[1] == 0 && c[2] == 0 && c[3] == r, "lights have their radius"); } } } vp_check(used == 4, "everything placed is there, once");
    Rend R; auto pr = R.get_primitives(v); auto li = R.get_lights(v); vp_check(pr.size() == 2 && li.size() == 1, "everything placed is listed, once"); vp_close3(d3(li[0].transforms[0].position), back(K, pf + Rf * (p[3] * s) - pc), 1e-3, "lights shine from where they are"); vp_cover("placed");
}
static struct { EScene* s; RTCRay r; int n; bool hit; float t, u, v; unsigned inst, prim; F3 ng; } H;
static void answer(EScene* s, RTCRayHit* h) { H.s = s; H.r = h->ray; H.n++; if (!H.hit) return; h->ray.tfar = H.t; h->hit.u = H.u; h->hit.v = H.v; h->hit.Ng_x = H.ng.x; h->hit.Ng_y = H.ng.y; h->hit.Ng_z = H.ng.z; h->hit.geomID = 0; h->hit.primID = H.prim; h->hit.instID[0] = H.inst; }
ENTRY moving() {   // motion during the exposure, for the ray tracer and for the shading alike
    init(); Scene<S> sc; auto A = tri(sc); auto pa = sc.add_primitive(A); auto L = sc.new_sphere_light(units::Meter(1.), units::Watt(1.)); auto C = sc.new_camera_model(); D3 pc = vec("pc", 100), vc = vec("vc", 10), p = vec("p", 100), w = vec("v", 10); auto cam = sc.root.new_instance(C); cam.set_position(units::Meter(pc.x), units::Meter(pc.y), units::Meter(pc.z)); cam.set_velocity(units::MetersPerSecond(vc.x), units::MetersPerSecond(vc.y), units::MetersPerSecond(vc.z)); Rotation<double> Rc = turn(1), Ri = turn(vp_choice("Ri", 4)); cam.set_rotation(Rc); bool light = vp_choice("light", 2); HI in = light ? sc.root.new_instance(L) : sc.root.new_instance(pa), other = sc.root.new_instance(pa); in.set_position(units::Meter(p.x), units::Meter(p.y), units::Meter(p.z)); in.set_velocity(units::MetersPerSecond(w.x), units::MetersPerSecond(w.y), units::MetersPerSecond(w.z)); in.set_rotation(Ri); double sc2 = vp_in("scale", 0.1, 10); in.set_scale(sc2);
    double t0 = vp_in("start", -50, 50), len = vp_in("length", 0.1, 10); int n = 1 + vp_choice("times", 3); SV v = view(sc, cam, t0, t0 + len, (size_t)n); look(v); vp_check(tlas->geoms.size() == 2, "everything placed is there, once"); unsigned k = light ? 1 : 0; EGeom* e = tlas->geoms[k]; vp_check((int)e->steps == n && (int)e->xf.size() == n, "every time of the exposure is there"); if (n > 1) vp_check(e->t0 == 0 && e->t1 == 1, "times span the exposure"); Rotation<double> K = Rc * C.get()->sensor_rotation(); EV q{1, 0, 0}; Rend R; for (int i = 0; i < n; ++i) { double dt = n == 1 ? 0 : len * i / (n - 1); D3 o = p + w * dt - pc - vc * dt; vp_close3(d3(eat(*e, (unsigned)i, q)), back(K, o + Ri * (D3(1, 0, 0) * sc2)), 1e-2, "at every time things are where they are then, relative to the camera"); if (light) vp_close3(d3(R.get_lights(v)[0].transforms[(size_t)i].position), back(K, o), 1e-2, "at every time things are where they are then, relative to the camera"); }
    float at = vp_inf("time", 0, 1); if (!light) { H.hit = true; H.n = 0; H.inst = 0; H.u = 1; H.v = 0; H.t = 3; H.prim = 0; H.ng = F3(0, 0, 1); ehit = answer; Ray<S> ray = along(F3(0), F3(0, 0, -1)); auto h = v.intersect(ray, at); ehit = nullptr; auto is = v.resolve_hit(ray, h); double dt = n == 1 ? 0 : len * at; D3 o = p + w * dt - pc - vc * dt; vp_close3(d3(is.position), back(K, o + Ri * (D3(1, 0, 0) * sc2)), 1e-2, "hits are shaded where the thing was when it was hit"); } vp_cover("moving");
}
static const double CS[3][2] = {{1, 0}, {0.8, 0.6}, {0.28, 0.96}}, AX[3][3] = {{0, 0, 1}, {0.6, 0, -0.8}, {0.48, 0.64, 0.6}}; static D3 axis; static int per;   // turned by 0, 1 and 2 times the angle of a 3-4-5 triangle
static D3 spun(int i, D3 x) { double c = CS[i][0], s = CS[i][1]; return x * c + glm::cross(axis, x) * s + axis * (glm::dot(axis, x) * (1 - c)); }
ENTRY turning() {   // turning things, and turning cameras
    init(); sm::frame = [](const char* f, double et, double (*M)[3], double* w) { for (int i = 0; i < 3; ++i) { w[i] = 0; D3 e(0); e[i] = 1; D3 r = f[0] == 'F' ? spun(((int)et - 3) / per, e) : e; for (int j = 0; j < 3; ++j) M[i][j] = r[j]; } }; Scene<S> sc; auto pa = sc.add_primitive(tri(sc)); auto C = sc.new_camera_model(); D3 p = vec("p", 100); auto cam = sc.root.new_instance(C); Rotation<double> Rc = turn(1), Ri = turn(vp_choice("Ri", 2) + 2); const double* q = AX[vp_choice("axis", 3)]; axis = D3(q[0], q[1], q[2]); int who = vp_choice("who", 2), n = 2 + vp_choice("times", 2); per = n == 2 ? 2 : 1; auto in = sc.root.new_instance(pa), other = sc.root.new_instance(pa); other.set_position(units::Meter(9.), units::Meter(0.), units::Meter(0.)); in.set_position(units::Meter(p.x), units::Meter(p.y), units::Meter(p.z)); in.set_rotation(Ri); cam.set_rotation(Rc); if (who) cam.set_spice_frame("F"); else in.set_spice_frame("F");
    int i = vp_choice("i", 3); if (i >= n) return; SV v = view(sc, cam, 3, 5, (size_t)n); vp_check(v.get_time().et() == 4 && v.get_start_time().et() == 3 && v.get_end_time().et() == 5 && v.duration().to_si() == 2 && v.get_exposure_interval().start.et() == 3, "views know their times"); H.hit = true; H.n = 0; H.inst = 0; H.u = 1; H.v = 0; H.t = 3; H.prim = 0; H.ng = F3(0, 0, 1); ehit = answer; Ray<S> ray = along(F3(0), F3(0, 0, -1)); auto h = v.intersect(ray, (float)i / (float)(n - 1)); ehit = nullptr; auto is = v.resolve_hit(ray, h); D3 ex = D3(1, 0, 0), ez = D3(0, 0, 1), x = p + (who ? Ri * ex : spun(i, ex)), nn = who ? Ri * ez : spun(i, ez); auto K = [&](D3 a) { D3 o; for (int k = 0; k < 3; ++k) { D3 e(0); e[k] = 1; e = C.get()->sensor_rotation() * e; o[k] = glm::dot(who ? spun(i, e) : Rc * e, a); } return o; };
    vp_close3(d3(is.position), K(x), 1e-2, "turning things and cameras are where they are at that time"); D3 m = K(nn); if (glm::dot(m, d3(is.normal_s)) < 0) m = -m; vp_close3(d3(is.normal_s), m, 1e-3, "turning things are seen as they are turned at that time"); look(v); vp_close3(d3(eat(*tlas->geoms[0], (unsigned)i, EV{1, 0, 0})), K(x), 1e-2, "turning things and cameras are where they are at that time"); vp_cover("turning");
}
ENTRY rays() {   // rays reach the ray tracer as they are, and hits come back as they are
    init(); Scene<S> sc; auto pa = sc.add_primitive(tri(sc)); auto C = sc.new_camera_model(); auto cam = sc.root.new_instance(C); sc.root.new_instance(pa); auto L = sc.new_sphere_light(units::Meter(1.), units::Watt(1.)); sc.root.new_instance(L); SV v = view(sc, cam); F3 o = vp_vec3in<float>("o", -1e3f, 1e3f), d = vp_vec3in<float>("d", -1, 1); H.hit = vp_bool("hit"); H.n = 0; H.t = vp_inf("t", 0, 1e6f); H.u = vp_inf("u", 0, 1); H.v = vp_inf("v", 0, 1); H.inst = vp_choice("inst", 2); H.prim = (unsigned)vp_choice("prim", 3); H.ng = vp_vec3in<float>("ng", -2, 2); float at = vp_inf("at", 0, 1); unsigned mask = 1u + (unsigned)vp_choice("mask", 3); ehit = answer; Ray<S> ray = along(o, d); bool many = vp_choice("many", 2); HitRecord h; if (many) { auto hs = v.intersect(std::vector<Ray<S>>{along(d, o), ray}, at); vp_check(hs.size() == 2 && H.n == 2, "every ray is traced"); h = hs[1]; } else h = v.intersect(ray, at, mask); ehit = nullptr;
    vp_check(H.r.org_x == o.x && H.r.org_y == o.y && H.r.org_z == o.z && H.r.dir_x == ray.direction().x && H.r.dir_y == ray.direction().y && H.r.dir_z == ray.direction().z, "rays start and go as given"); vp_check(H.r.tnear == 0 && std::isinf(H.r.tfar) && H.r.tfar > 0, "rays go on without end"); vp_check(H.r.time == at, "rays are traced at their time"); if (!many) vp_check(H.r.mask == mask, "rays see what they are to see"); vp_check(H.s->committed && H.s->geoms.size() == 2, "rays are traced through the scene"); vp_check(h.hit() == H.hit, "a hit is a hit"); if (H.hit) { vp_check(h.t == H.t && h.u == H.u && h.v == H.v && h.prim_id == H.prim && h.inst_id == H.inst && h.time == at && h.Ng == H.ng, "hits are as the ray tracer says"); } else vp_check(std::isinf(h.t), "rays that hit nothing go on without end"); vp_cover("rays");
}
ENTRY shading() {   // position, normals and tangents of a hit
    static const float N[3][3] = {{0, 0, 1}, {0.6f, 0, 0.8f}, {0, 0, 0}}, G[3][3] = {{0, 0, 2}, {0, 3, -4}, {1, -2, 2}}, V[3][3] = {{0, 0, -1}, {0.6f, 0.64f, 0.48f}, {-1, 0, 0}}; init(); Scene<S> sc; int ni = vp_choice("n", 3); const float *nn = N[ni], *gg = G[vp_choice("g", 3)], *vv = V[vp_choice("view", 3)]; auto Bm = tri(sc); bool tan = vp_choice("tangents", 2); VertexBuffer<S> vb(3); for (int k = 0; k < 3; ++k) { vb[(size_t)k].position = F3(k == 1 ? 1 : 0, k == 2 ? 3 : 0, 0); vb[(size_t)k].normal = F3(nn[0], nn[1], nn[2]); vb[(size_t)k].uv = Vec2<float>(0.25f * (float)k, 1); } TangentBuffer tb(3); for (auto& q : tb) { q.tangent = F3(1, 0, 0); q.bitangent = F3(0, -1, 0); } auto me = tan ? sc.add_mesh({0, 1, 2}, vb, tb) : sc.add_mesh({0, 1, 2}, vb); auto pa = sc.add_primitive(me), pb = sc.add_primitive(Bm); auto C = sc.new_camera_model(); auto cam = sc.root.new_instance(C); sc.root.new_instance(pb); auto far = sc.root.new_instance(pa); far.set_scale(9); auto in = sc.root.new_instance(pa);
    static const double SC[3][3] = {{1, 1, 1}, {2, 2, 2}, {1, 0.5, 4}}; const double* s = SC[vp_choice("scale", 3)]; D3 p = vec("p", 100); Rotation<double> R = turn(vp_choice("R", 2) + 2); in.set_position(units::Meter(p.x), units::Meter(p.y), units::Meter(p.z)); in.set_rotation(R); in.set_scale(s[0], s[1], s[2]); SV v = view(sc, cam); look(v); int gi = -1; for (int k = 0; k < 3; ++k) if (kind(tlas->geoms[(size_t)k]) == 3 && tlas->geoms[(size_t)k]->xf[0].scale_x != 9) gi = k; vp_check(gi >= 0, "the instance is there");
    Rotation<double> K = C.get()->sensor_rotation(); HitRecord h; h.inst_id = (unsigned)gi; h.geom_id = 0; h.prim_id = 0; h.t = 1; h.u = vp_inf("u", 0, 1); h.v = vp_inf("v", 0, 1); vp_assume(h.u + h.v <= 1); h.Ng = F3(gg[0], gg[1], gg[2]); F3 d(vv[0], vv[1], vv[2]); Ray<S> ray = along(F3(0), d); D3 gw = back(K, R * (d3(h.Ng) / D3(s[0], s[1], s[2]))), nw = back(K, R * (D3(nn[0], nn[1], nn[2]) / D3(s[0], s[1], s[2]))); double side = glm::dot(gw, d3(d)); if (side > -0.05 && side < 0.05) return; if (side > 0) gw = -gw; gw /= glm::length(gw); auto is = v.resolve_hit(ray, h);
    vp_close3(d3(is.position), back(K, p + R * D3(h.u * s[0], 3 * h.v * s[1], 0)), 1e-3, "hits are on the surface"); vp_close3(d3(is.normal_g), gw, 1e-4, "normals are perpendicular to the surface and face the viewer"); if (ni == 2) nw = gw; else nw /= glm::length(nw); double f = glm::dot(nw, gw); if (f < 0) nw = -nw; if (f > 1e-3 || f < -1e-3) vp_close3(d3(is.normal_s), nw, 1e-4, "shading normals follow the surface and its side"); vp_close3(d3(is.wo), -d3(ray.direction()), 1e-5, "light leaves towards the viewer"); vp_check_close(is.uv.x, 0.25f * h.u + 0.5f * h.v, 1e-4, "texture coordinates are interpolated"); D3 t = back(K, R * D3(1, 0, 0)), b = back(K, R * D3(0, 1, 0)); if (tan) { vp_close3(d3(is.tangent), t, 1e-4, "tangents lie along the surface"); vp_check_close(std::abs(glm::dot(d3(is.bitangent), b)), 1, 1e-4, "tangents lie along the surface"); } else vp_check(is.tangent == F3(0) && is.bitangent == F3(0), "surfaces without tangents say so"); vp_cover("shading");
}
static float chance; struct Dice : RandomSampler<float> { Dice() : RandomSampler<float>(1u) {} float get_1d() override { return chance; } Vec2<float> get_2d() override { return Vec2<float>(chance, chance); } };
static S rgb(const char* n, float lo, float hi) { float v = vp_inf(n, lo, hi); S s; for (int k = 0; k < 3; ++k) s[k] = v / (float)(1 << k); return s; }
ENTRY shadow() {   // what is left of light on its way
    static const int ORD[6][4] = {{0, 0, 1, 0}, {0, 1, 0, 1}, {1, 0, 1, 2}, {2, 0, 0, 0}, {0, 1, 0, 0}, {1, 2, 0, 2}}; static const double Z[3] = {2, 5, 9}; static const float FAR[3] = {1, 7, 20}; init(); Scene<S> sc; auto C = sc.new_camera_model(); auto cam = sc.root.new_instance(C); const int* od = ORD[vp_choice("order", 6)]; float far = FAR[vp_choice("far", 3)]; int some = vp_choice("opaque", 4); static const float X[2][3] = {{0.125f, 0.5f, 0}, {0.25f, 0, 0.0625f}}; PrimitiveHandle<S> P[3] = {sc.add_primitive(tri(sc)), sc.add_primitive(tri(sc)), sc.add_primitive(tri(sc))}; S tr[3]; float al[3]; for (int k = 0; k < 3; ++k) { S half; for (int c = 0; c < 3; ++c) half[c] = X[k == 1][c] / 2; auto m = sc.new_material(sc.new_bsdf_lambertian()); auto med = sc.new_medium(sc.new_constant_density_field(half, half), sc.new_isotropic_phase_function()); P[k] = k == 2 ? sc.add_primitive(tri(sc), m) : sc.add_primitive(tri(sc), m, med); tr[k] = k == 1 && vp_choice("clear", 2) ? S{0} : rgb("transmission", 0.1f, 1); al[k] = some != k ? 1 : vp_inf("opacity", 0, 0.9f); m.set_transmission_factor(tr[k]); m.set_alpha_factor(al[k]); }
    for (int k = 0; k < 3; ++k) { auto in = sc.root.new_instance(P[od[k]]); in.set_position(units::Meter(-0.3), units::Meter(-0.3), units::Meter(-Z[k])); } auto L = sc.new_sphere_light(units::Meter(1.), units::Watt(1.)); auto li = sc.root.new_instance(L); li.set_position(units::Meter(0.), units::Meter(0.), units::Meter(-4.)); SV v = view(sc, cam); ehit = eplanes; chance = vp_inf("chance", 0, 0.99f); Dice dice; MediumStack<S> st; bool in[3] = {}; int start = od[3]; if (start) { auto me = start == 1 ? P[0] : P[1]; st.toggle(me.get().get()); in[start - 1] = true; } std::vector<int> order; if (start) order.push_back(start - 1); S got = v.evaluate_transmittance(along(F3(0), F3(0, 0, -1)), far, st, dice);
    S want{1}; double at = 0; for (int k = 0; k <= 3; ++k) { double to = k < 3 && Z[k] < far ? Z[k] : far; int m = order.empty() ? -1 : order.back(); if (m == 0 || m == 1) for (int c = 0; c < 3; ++c) want[c] *= (float)std::exp(-X[m][c] * (to - at)); at = to; if (to >= far) break; int p = od[k]; bool pass = al[p] < 1 && chance > al[p]; if (!pass) want = want * tr[p]; bool was = false; for (size_t i = 0; i < order.size(); ++i) if (order[i] == p) { order.erase(order.begin() + (long)i); was = true; break; } if (!was && p != 2) order.push_back(p); } for (int c = 0; c < 3; ++c) vp_check_close(got[c], want[c], 1e-4, "light on its way loses what the surfaces and the media it crosses take"); vp_cover("shadow");
}
