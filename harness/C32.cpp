// C32: objects too small to resolve
//! entry: emitter time=40
//! entry: sphere time=60
//! entry: asteroid time=60 opts=--expadd
//! entry: which time=40 opts=--expadd
//! entry: accepted time=60
//! libs: -lassimp -lfftw3f -lpng -lturbojpeg -ltiff -lcfitsio
//! assume: the ray-tracing library is a stand-in
//! bound: seen from tables of directions and phase angles, any distances of emitters, sizes, powers, albedos and magnitudes; three lights; exact real arithmetic
#include "vp.hpp"
#include "embree.hpp"
#include "spicemodel/spice_model.hpp"
#include "huira/huira.hpp"
using namespace huira; using S = RGB; using F3 = Vec3<float>; using T = Transform<float>;
static const double Pi = 3.14159265358979;
static S rgb(const char* n, float hi) { F3 v = vp_vec3in<float>(n, 0, hi); S s; for (int k = 0; k < 3; ++k) s[k] = v[k]; return s; }
static S seen(UnresolvedObjectHandle<S> h, T t, const std::vector<LightInstance<S>>& l) { auto o = h.get(); o->resolve_irradiance(t, l); return o->get_irradiance(Time::from_et(7)); }
static T at(F3 p) { T t; t.position = p; return t; }
ENTRY emitter() {   // power over the sphere around it
    spice::lsk_loaded.store(true); Scene<S> sc; F3 p = vp_vec3in<float>("p", -100, 100); vp_assume(glm::dot(p, p) >= 1); S w = rgb("w", 100); float tot = vp_inf("total", 0, 100); bool all = vp_choice("total", 2); auto h = all ? sc.new_unresolved_emitter(units::Watt((double)tot)) : sc.new_unresolved_emitter(units::SpectralWatts<S>(w)); S e = seen(h, at(p), {}); double d2 = glm::dot(p, p), sum = 0; for (int k = 0; k < 3; ++k) { sum += e[k]; if (!all) vp_check_close(e[k] * 4 * Pi * d2, w[k], 1e-3, "emitters spread their power over the sphere"); } if (all) vp_check_close(sum * 4 * Pi * d2, tot, 1e-2, "all bins together carry the total power"); vp_cover("emitter");
}
static const float U[4][3] = {{0, 0, -1}, {0.6f, 0, -0.8f}, {-0.48f, 0.6f, 0.64f}, {1, 0, 0}};
struct Geo { F3 p, l; double d, e, a; };
static Geo geometry(const float* D, const float* E, int& m) { static const int P[6][2] = {{0, 0}, {0, -1}, {1, 2}, {2, 3}, {3, -2}, {1, -3}}; const int* q = P[vp_choice("directions", 6)]; int j = q[1] < 0 ? -q[1] - 1 : q[1]; const float *u = U[q[0]], *w = U[j]; m = vp_choice("distances", 3); F3 a(u[0], u[1], u[2]), b(w[0], w[1], w[2]); if (q[1] < 0) b = -b; Geo g; g.p = a * D[m]; g.l = g.p + b * E[m]; g.d = D[m]; g.e = E[m]; double c = -((double)a.x * b.x + (double)a.y * b.y + (double)a.z * b.z); g.a = std::acos(c > 1 ? 1 : c < -1 ? -1 : c); return g; }
ENTRY sphere() {   // a diffuse sphere reflects its albedo times what it receives
    static const float D[3] = {100, 3, 50000}, E[3] = {40, 500, 16}; spice::lsk_loaded.store(true); int m; Geo g = geometry(D, E, m); Scene<S> sc; S lum = rgb("radiance", 100), al = rgb("albedo", 1); auto lh = sc.new_sphere_light(units::Meter(0.5), units::SpectralWattsPerMeterSquaredSteradian<S>(lum)); auto in = sc.root.new_instance(lh); float r = vp_inf("radius", 0.01f, 10); int kind = vp_choice("albedo", 3); float one = vp_inf("grey", 0, 1); auto h = kind == 0 ? sc.new_unresolved_sphere(units::Meter((double)r), in, al) : kind == 1 ? sc.new_unresolved_sphere(units::Meter((double)r), in, one) : sc.new_unresolved_sphere(units::Meter((double)r), in);
    S e = seen(h, at(g.p), {LightInstance<S>{lh.get(), {at(g.l)}}}); double ph = (std::sin(g.a) + (Pi - g.a) * std::cos(g.a)) / Pi; for (int k = 0; k < 3; ++k) { double ak = kind == 0 ? al[k] : kind == 1 ? one : 1, in = lum[k] * Pi * 0.25 / (g.e * g.e); vp_check_close(e[k] * g.d * g.d * g.e * g.e, 2.0 / 3 * ak * r * r * in * g.e * g.e * ph, 1e-3 * r * r, "a diffuse sphere reflects its albedo times what it receives, by Lambert's phase"); } vp_cover("sphere");
}
ENTRY asteroid() {   // the H, G magnitude system
    const float A = 1.495978707e11f; static const float D[3] = {A, 3 * A, 0.25f * A}, E[3] = {A, 0.5f * A, 2 * A}; spice::lsk_loaded.store(true); int m; Geo g = geometry(D, E, m); vp_assume(g.a < 3.1); Scene<S> sc; auto lh = sc.new_sphere_light(units::Meter(7e8), units::Watt(4e26)); auto in = sc.root.new_instance(lh); double H = vp_in("H", -5, 30); static const double GS[3] = {0.15, 0, 1}; double G = GS[m]; S al = rgb("albedo", 1); int kind = vp_choice("albedo", 3); float one = vp_inf("grey", 0, 1); auto h = kind == 0 ? sc.new_unresolved_asteroid(H, G, in, al) : kind == 1 ? sc.new_unresolved_asteroid(H, G, in, one) : sc.new_unresolved_asteroid(H, G, in);
    S e = seen(h, at(g.p), {LightInstance<S>{lh.get(), {at(g.l)}}}), ref = visual_magnitude_to_irradiance<S>(H); double t = std::tan(g.a / 2), ph = (1 - G) * std::exp(-3.33 * std::pow(t, 0.63)) + G * std::exp(-1.87 * std::pow(t, 1.22)); double ra = g.e / 1.495978707e11, da = g.d / 1.495978707e11, want = ph / (ra * ra * da * da);
    for (int k = 0; k < 3; ++k) { double ak = kind == 0 ? al[k] : kind == 1 ? one : 1; vp_check_close(e[k] / ref[k], ak * want, 2e-2 * want + 1e-9, "asteroids are as bright as their absolute magnitude, distances and phase say"); } vp_cover("asteroid");
}
ENTRY which() {   // lit by their own light only
    spice::lsk_loaded.store(true); Scene<S> sc; LightHandle<S> L[3] = {sc.new_sphere_light(units::Meter(1.), units::Watt(1.)), sc.new_sphere_light(units::Meter(1.), units::Watt(2.)), sc.new_sphere_light(units::Meter(1.), units::Watt(4.))}; int own = vp_choice("own", 3); auto in = sc.root.new_instance(L[own]); bool ast = vp_choice("asteroid", 2); auto h = ast ? sc.new_unresolved_asteroid(10, 0.15, in) : sc.new_unresolved_sphere(units::Meter(1.), in); auto v = sc.new_unresolved_sphere(units::Meter(1.), in); float far = ast ? 1e10f : 1; T me = at(F3(0, 0, -8 * far)); T lt[3] = {at(F3(0, 6 * far, 0)), at(F3(0, 15 * far, 0)), at(F3(0, -31.5f * far, 0))}; S alone = seen(h, me, {LightInstance<S>{L[own].get(), {lt[own], lt[(own + 1) % 3]}}}); int first = vp_choice("first", 3), miss = vp_choice("missing", 4); std::vector<LightInstance<S>> ls; for (int k = 0; k < 3; ++k) { int j = (first + k) % 3; if (j != miss) ls.push_back({L[j].get(), {lt[j]}}); } bool thr = vp_throws([&] { S e = seen(h, me, ls); vp_check(e[0] == alone[0] && e[2] == alone[2], "only the object's own light counts"); }); vp_check(thr == (own == miss), "an object whose light is not there is reported"); vp_cover("which");
}
ENTRY accepted() {   // what the makers take
    spice::lsk_loaded.store(true); Scene<S> sc; auto lh = sc.new_sphere_light(units::Meter(1.), units::Watt(1.)); auto in = sc.root.new_instance(lh); float a = vp_inf("a", -2, 2), r = vp_inf("r", -2, 2); int bin = vp_choice("bin", 3); S al{0.5f}; al[bin] = a; int kind = vp_choice("kind", 9); bool ok = true; switch (kind) { case 0: case 1: case 2: case 3: ok = a >= 0 && a <= 1; break; case 4: ok = r > 0; break; case 5: case 6: case 7: case 8: ok = a >= 0; break; }
    S got{0}; bool thr = vp_throws([&] { switch (kind) { case 0: sc.new_unresolved_sphere(units::Meter(1.), in, al); break; case 1: sc.new_unresolved_sphere(units::Meter(1.), in, a); break; case 2: sc.new_unresolved_asteroid(1, 0.1, in, al); break; case 3: sc.new_unresolved_asteroid(1, 0.1, in, a); break; case 4: sc.new_unresolved_sphere(units::Meter((double)r), in); break; case 5: got = seen(sc.new_unresolved_object(units::WattsPerMeterSquared((double)a)), at(F3(3, 1, 2)), {}); break; case 6: got = seen(sc.new_unresolved_object(units::SpectralWattsPerMeterSquared<S>(al)), at(F3(3, 1, 2)), {}); break; case 7: sc.new_unresolved_emitter(units::Watt((double)a)); break; default: sc.new_unresolved_emitter(units::SpectralWatts<S>(al)); } }); vp_check(thr == !ok, "exactly impossible albedos, sizes, powers and irradiances are refused"); if (!thr && kind == 5) vp_check_close(got[0] + got[1] + got[2], a, 1e-5, "plain objects are as bright as given, from anywhere"); if (!thr && kind == 6) for (int k = 0; k < 3; ++k) vp_check(got[k] == al[k], "plain objects are as bright as given, from anywhere");
    auto f = sc.root.new_instance(sc.new_unresolved_object(units::WattsPerMeterSquared(1.))); vp_check(vp_throws([&] { sc.new_unresolved_sphere(units::Meter(1.), f); }) && vp_throws([&] { sc.new_unresolved_asteroid(1, 0, f); }), "only lights can light an object"); vp_cover("accepted");
}
