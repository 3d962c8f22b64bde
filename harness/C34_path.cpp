// C34: the light that reaches a pixel
//! entry: lit time=60
//! entry: bounce time=60
//! entry: clear time=60
//! entry: through time=60
//! entry: slab time=60
//! entry: fog time=60
//! entry: average time=60
//! entry: sensor time=60
//! entry: roulette time=60
//! libs: -lassimp -lfftw3f -lpng -lturbojpeg -ltiff -lcfitsio
//! assume: the ray-tracing library is a stand-in: every instance is the whole plane through its place, facing the camera
//! bound: one pixel, up to three samples and four bounces, scripted random numbers; concrete geometry; exact real arithmetic
#define CAMRES 1
#include "scene34.hpp"
struct Pic { S all, direct, indirect; bool depth; S albedo; float z; };
static Pic shoot(World& w, int bounces, int spp = 1, Rend R = Rend()) { auto v = w.view(); FB fb = w.C.make_frame_buffer(); fb.enable_received_power(); fb.enable_received_direct_power(); fb.enable_received_indirect_power(); fb.enable_depth(); fb.enable_albedo(); R.set_max_bounces(bounces); R.set_samples_per_pixel(spp); R.render(v, fb); float k = w.C.get()->pixel_radiance_to_power(0, 0); vp_assume(k > 1e-12f); auto u = [&](S s) { return s / k; }; Pic p{u(fb.received_power()(0, 0)), u(fb.received_direct_power()(0, 0)), u(fb.received_indirect_power()(0, 0)), !std::isinf(fb.depth()(0, 0)), fb.albedo()(0, 0), fb.depth()(0, 0)}; for (int c = 0; c < 3; ++c) vp_check_close(p.all[(size_t)c], p.direct[(size_t)c] + p.indirect[(size_t)c], 1e-4, "all light is direct or indirect"); return p; }
static void lamp(World& w, D3 p, float r, S L) { w.put(w.sc.new_sphere_light(units::Meter((double)r), units::SpectralWattsPerMeterSquaredSteradian<S>(L)), p); }
static const double PId = 3.14159265358979;
static const D3 LP[3] = {D3(0, 0, -5), D3(0, 4, -3), D3(2.4, 3.2, -3)}; static const double OM = 2 * PId * (1 - 0.96), PL = 1 / OM;   // lamps of radius 1.4 at a distance of 5
static double share(double a, double b) { return a * a / (a * a + b * b); }
ENTRY lit() {   // a surface in the light of a lamp, with something on the way
    init(); World w(vp_choice("rotation", 2) * 2); auto me = tri(w.sc); auto m = w.sc.new_material(w.sc.new_bsdf_lambertian()), n = w.sc.new_material(w.sc.new_bsdf_lambertian()); S al = rgb("albedo", 0.1f, 1), L = rgb("radiance", 0, 10), tr = rgb("veil", 0.1f, 1); m.set_albedo_factor(al); n.set_transmission_factor(tr); static const double Z[2] = {2, 30}; double z = Z[vp_choice("depth", 2)]; int k = vp_choice("lamp", 3); D3 at = D3(0, 0, z) + LP[k]; w.put(w.sc.add_primitive(me, m), D3(-0.25, -0.25, z)); lamp(w, at, 1.4f, L); int veil = vp_choice("between", 3); if (veil == 1) w.put(w.sc.add_primitive(me, n), D3(-0.25, -0.25, at.z < 0 ? -0.1 : -100)); if (veil == 2) w.put(w.sc.add_primitive(me, n), D3(-0.25, -0.25, z + 1)); bool covered = veil == 1 && at.z < 0; script({0.5f, 0.5f, 0, 0}); Pic p = shoot(w, 1); bool near = at.z > 0; 
    double cos = -LP[k].z / 5, f = OM * cos / PId * share(PL, cos / PId); for (int c = 0; c < 3; ++c) { size_t i = (size_t)c; if (near) vp_check_close(p.direct[i], L[i], 1e-3, "lamps in sight are seen"); else vp_check_close(p.direct[i], al[i] * L[i] * f * (covered ? tr[i] : 1), 1e-3, "surfaces reflect the light of lamps, less what is lost on the way"); vp_check(p.indirect[i] == 0, "light that arrives directly is not indirect"); } vp_cover("lit");
}
ENTRY bounce() {   // light from where surfaces send rays
    init(); World w(vp_choice("rotation", 2) * 2); auto me = tri(w.sc); auto m = w.sc.new_material(w.sc.new_bsdf_lambertian()), n = w.sc.new_material(w.sc.new_bsdf_lambertian()); S al = rgb("albedo", 0.1f, 1), L = rgb("radiance", 0, 10), em = rgb("glow", 0, 10), bg = rgb("sky", 0, 10), a2 = rgb("other", 0.1f, 1); m.set_albedo_factor(al); n.set_albedo_factor(a2); n.set_emissive_factor(em); w.sc.set_background_radiance(bg); w.put(w.sc.add_primitive(me, m), D3(-0.25, -0.25, 2)); int what = vp_choice("what", 3); if (what == 1) w.put(w.sc.add_primitive(me, n), D3(-0.25, -0.25, -1)); if (what == 2) lamp(w, D3(0, 0, -3), 1.4f, L); script({0.5f, 0.5f, 0, 0, 0, 0}); if (what < 2) script({0.5f, 0.5f, 0, 0}); bool clamp = vp_choice("clamp", 2); Rend R; float lim = vp_inf("limit", 0.1f, 5); if (clamp) R.set_indirect_clamp(lim); int nb = 1 + vp_choice("bounces", 2); Pic p = shoot(w, nb, 1, R); S ind{0}, dir{0}; double pb = 1 / PId; if (nb == 2) ind = what == 0 ? al * bg : what == 1 ? al * em : al * L * (float)share(pb, PL); if (what == 2) dir = al * L * (float)(OM / PId * share(PL, pb)); 
    if (clamp && ind[0] > lim) ind = ind * (lim / ind[0]); same(p.direct, dir, 1e-3, "light from lamps is counted once"); same(p.indirect, ind, 1e-3, clamp ? "indirect light stays within its limit" : "surfaces reflect what their bounces see"); vp_cover("bounce");
}
ENTRY clear() {   // surfaces one sees through
    init(); World w(vp_choice("rotation", 2) * 2); auto me = tri(w.sc); auto m = w.sc.new_material(w.sc.new_bsdf_lambertian()); float a = vp_inf("opacity", 0, 1), u = vp_inf("chance", 0, 0.99f); m.set_alpha_factor(a); S em = rgb("glow", 0, 10), bg = rgb("sky", 0, 10); m.set_emissive_factor(em); w.sc.set_background_radiance(bg); w.put(w.sc.add_primitive(me, m), D3(-0.25, -0.25, 2)); script({0.5f, 0.5f, u}); Pic p = shoot(w, 1); if (u == a) return; bool pass = a < 1 && u > a; same(p.all, pass ? bg : em, 1e-4, "what is behind shows through as much as the surface is clear"); vp_check(p.depth == !pass, "what is seen through has no depth"); for (int c = 0; c < 3; ++c) vp_check(p.indirect[(size_t)c] == 0, "seeing through is seeing directly"); vp_cover("clear");
}
ENTRY through() {   // surfaces that do not scatter hide nothing
    init(); World w(vp_choice("rotation", 2) * 2); auto me = tri(w.sc); auto m = w.sc.new_material(w.sc.new_bsdf_null()); S L = rgb("radiance", 0, 10), bg = rgb("sky", 0, 10); w.sc.set_background_radiance(bg); int n = 1 + vp_choice("layers", 2); for (int k = 0; k < n; ++k) w.put(w.sc.add_primitive(me, m), D3(-0.25, -0.25, 2 + k)); bool on = vp_choice("lamp", 2); if (on) lamp(w, D3(0, 0, 8), 1.4f, L); script({}); Pic p = shoot(w, 3); same(p.all, on ? L : bg, 1e-3, "what is behind surfaces that do not scatter is seen as it is"); vp_cover("through");
}
static MediumHandle<S> gas(World& w, S ab, S sc) { return w.sc.new_medium(w.sc.new_constant_density_field(ab, sc), w.sc.new_isotropic_phase_function()); }
ENTRY slab() {   // a layer of something between the eye and the sky
    init(); World w(vp_choice("rotation", 2) * 2); auto me = tri(w.sc); auto m = w.sc.new_material(w.sc.new_bsdf_null()); S bg = rgb("sky", 0, 10); w.sc.set_background_radiance(bg); static const float E[3][3] = {{0, 0, 0}, {0.25f, 0.25f, 0.25f}, {0.125f, 0.5f, 0.125f}}; const float* e = E[vp_choice("medium", 3)]; S ab{e[0], e[1], e[2]}; float av = (e[0] + e[1] + e[2]) / 3; auto pr = w.sc.add_primitive(me, m, gas(w, ab, S{0})); static const double H[2] = {1, 4}; double h = H[vp_choice("thickness", 2)]; bool closed = e[0] > 0 || vp_choice("closed", 2); w.put(pr, D3(-0.25, -0.25, 2)); if (closed) w.put(pr, D3(-0.25, -0.25, 2 + h)); static const float U[3] = {0, 0.125f, 0.9f}; float u = U[vp_choice("chance", 3)]; if (av > 0) script({0.5f, 0.5f, 0.5f, 0.5f, u}); else script({});
    Pic p = shoot(w, 4); double gone = 1 - std::exp(-(double)av * h); if (av > 0 && u < gone) same(p.all, S{0}, 1e-5, "what is absorbed is not seen"); else for (int c = 0; c < 3; ++c) vp_check_close(p.all[(size_t)c], bg[(size_t)c] * std::exp(-((double)e[c] - av) * h), 1e-3, "what is not absorbed makes up for the colour of what is"); vp_cover("slab");
}
ENTRY fog() {   // light scattered towards the eye
    init(); World w(vp_choice("rotation", 2) * 2); auto me = tri(w.sc); auto m = w.sc.new_material(w.sc.new_bsdf_null()); m.set_transmission_factor(S{1}); S L = rgb("radiance", 0, 10); static const float A[2][3] = {{0.25f, 0.25f, 0.25f}, {0.125f, 0.5f, 0.125f}}; const float* e = A[vp_choice("medium", 2)]; float s = vp_inf("albedo", 0, 1); S sc{e[0] * s, e[1] * s, e[2] * s}, ab{e[0] - sc[0], e[1] - sc[1], e[2] - sc[2]}; float av = (e[0] + e[1] + e[2]) / 3; auto pr = w.sc.add_primitive(me, m, gas(w, ab, sc)); w.put(pr, D3(-0.25, -0.25, 2)); w.put(pr, D3(-0.25, -0.25, 4)); lamp(w, D3(0, 0, 7), 1.4f, L); script({0.5f, 0.5f, 0.5f, 0.5f, 0.5f, 0.5f, 0, 0, 0, 0.5f, 0.5f}); Pic p = shoot(w, 2); for (int c = 0; c < 3; ++c) vp_check_close(p.all[(size_t)c] * 100, 100. * (double)sc[(size_t)c] / av * L[(size_t)c] * OM / (4 * PId) * share(PL, 1 / (4 * PId)) * std::exp(-2. * e[c]), 2e-3, "media scatter the light of lamps"); vp_cover("fog");
}
ENTRY average() {   // pixels are the average of their samples
    init(); World w(0); auto me = tri(w.sc); auto m = w.sc.new_material(w.sc.new_bsdf_lambertian()); m.set_alpha_factor(0.5f); S em = rgb("glow", 0, 10), bg = rgb("sky", 0, 10), al = rgb("albedo", 0.1f, 1); m.set_emissive_factor(em); m.set_albedo_factor(al); w.sc.set_background_radiance(bg); w.put(w.sc.add_primitive(me, m), D3(-0.25, -0.25, 2)); bool behind = vp_choice("behind", 2); if (behind) { auto o = w.sc.new_material(w.sc.new_bsdf_lambertian()); o.set_emissive_factor(bg); o.set_albedo_factor(S{0}); w.put(w.sc.add_primitive(me, o), D3(-0.25, -0.25, 5)); } int n = vp_choice("samples", 4), see = 0, hit[3]; for (int& q : hit) q = (int)vp_choice("hit", 2); std::vector<float> r; for (int k = 0; k < n; ++k) { r.push_back(0.5f); r.push_back(0.5f); r.push_back(hit[k] ? 0.25f : 0.75f); if (hit[k] || behind) { r.push_back(0); r.push_back(0); } } script(r); bool dyn = vp_choice("dynamic", 2); Rend R; R.set_dynamic_sampling(dyn); int mn = 1 + vp_choice("least", 3); R.set_min_samples(mn); bool strict = vp_choice("strict", 2); R.set_variance_threshold(strict ? 0.f : 1e9f); Pic p = shoot(w, 1, n, R); int took = 0; for (int k = 0, at = 0; k < n; ++k) { at += hit[k] || behind ? 5 : 3; if ((size_t)at <= rolled) took = k + 1; } if (!dyn || strict) vp_check(took == n, "every sample is taken unless they agree"); else vp_check(took >= (mn < n ? mn : n), "at least as many samples as asked for are taken"); for (int k = 0; k < took; ++k) see += hit[k]; float a = took ? (float)see / (float)took : 0, b = took ? 1 - a : 0; same(p.all, em * a + bg * b, 1e-3, "pixels are the average of their samples"); same(p.albedo, al * a, 1e-3, "pixels are the average of their samples"); vp_check(p.depth == (see > 0 || (behind && took)), "depths are those of the nearest sample"); if (p.depth) vp_check_close(p.z, see ? 2 : 5, 1e-3, "depths are those of the nearest sample"); vp_cover("average");
}
ENTRY sensor() {   // the sensor reads out what the whole exposure received
    init(); World w(0); S bg = rgb("sky", 0, 1e-9f); w.sc.set_background_radiance(bg); w.C.set_sensor_simulate_noise(false); static const double E[3] = {0.001, 0.5, 8}; double e = E[vp_choice("exposure", 3)]; bool glare = vp_choice("glare", 2), first = vp_choice("again", 2); if (glare) w.C.set_veiling_glare(0.25f); auto v = w.view(ObservationMode::TRUE_STATE, 7 + e); FB fb = w.C.make_frame_buffer(), g = w.C.make_frame_buffer(); fb.enable_sensor_response(); g.enable_sensor_response(); Rend R; R.set_max_bounces(1); R.set_samples_per_pixel(1); script({}); R.render(v, fb); if (first) R.render(v, fb); float k = w.C.get()->pixel_radiance_to_power(0, 0); same(fb.received_power()(0, 0), bg * k, 1e-4, "what is received does not depend on the sensor"); g.received_power()(0, 0) = bg * k; w.C.get()->readout(g, units::Second(e)); same(fb.sensor_response()(0, 0), g.sensor_response()(0, 0), 1e-4, "the sensor reads out what the whole exposure received"); vp_cover("sensor");
}
ENTRY roulette() {   // paths that are given up at random are made up for by those that go on
    auto go = [](S ea, S eb, float al, float u, int nb) { World w(0); auto me = tri(w.sc); auto m = w.sc.new_material(w.sc.new_bsdf_lambertian()), n = w.sc.new_material(w.sc.new_bsdf_lambertian()); m.set_albedo_factor(S{al}); n.set_albedo_factor(S{al}); m.set_emissive_factor(ea); n.set_emissive_factor(eb); w.put(w.sc.add_primitive(me, m), D3(-0.25, -0.25, 2)); w.put(w.sc.add_primitive(me, n), D3(-0.25, -0.25, -1)); script({0.5f, 0.5f, 0, 0, 0, 0, 0, 0, 0, 0, u}); return shoot(w, nb).all; };
    init(); static const float A[4] = {1, 0.75f, 0.5f, 0.25f}; float al = A[vp_choice("albedo", 4)], u = vp_inf("chance", 0, 1); S ea = rgb("glow", 1, 10), eb = rgb("other", 1, 10); S a = go(ea, eb, al, 0, 4), b = go(ea, eb, al, 0, 5), c = go(ea, eb, al, u, 5); double f = (double)al * al * al * al; for (size_t k = 0; k < 3; ++k) vp_check_close(a[k], ea[k] + (double)al * eb[k] + (double)al * al * ea[k] + (double)al * al * al * eb[k], 1e-3, "light bounces on between surfaces"); double on = b[0] - a[0]; vp_check(on >= f * ea[0] * 0.999, "paths that go on are given at least their own light"); double went = c[0] - a[0], p = f * ea[0] / on; if (u < p - 1e-3) vp_check_close(went * 16, on * 16, 2e-3, "paths go on as often as they make up for those that do not"); if (u > p + 1e-3) vp_check_close(went * 16, 0, 2e-3, "paths go on as often as they make up for those that do not"); vp_cover("roulette");
}
