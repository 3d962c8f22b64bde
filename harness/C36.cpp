// C36: the same image every time
//! entry: repeat mode=fp time=90
//! entry: streaks mode=fp time=60
//! libs: -lassimp -lfftw3f -lpng -lturbojpeg -ltiff -lcfitsio
//! assume: the ray-tracing library is a stand-in; pieces of work run one after another
//! bound: images of 33 by 1 (three tiles) and 65 by 1 pixels; every order of three tiles, two of the others; one concrete scene
#define CAMRES 1
#define REALDICE
#include "scene34.hpp"
static unsigned last(unsigned n) { return n - 1; } static unsigned any(unsigned n) { return vp_choice("next", n); } static void flicker(EScene* s, RTCRayHit* h) { if (h->ray.time <= 0.6f) eplanes(s, h); }
static Image<S> shoot(World& w, Rend& R, double b) { auto v = w.view(ObservationMode::TRUE_STATE, b); FB fb = w.C.make_frame_buffer(); fb.enable_received_power(); R.render(v, fb); return fb.received_power(); }
ENTRY repeat() {   // whatever the order of the work, the system's random numbers and what was rendered before
    init(); ehit = flicker; World w; w.C.configure_sensor_from_pitch(Resolution{33, 1}, units::Micrometer(1000.)); auto m = w.sc.new_material(w.sc.new_bsdf_lambertian()); m.set_alpha_factor(0.5f); m.set_emissive_factor(S{8, 4, 2}); w.put(w.sc.add_primitive(tri(w.sc), m), D3(-0.25, -0.25, 2)); w.sc.set_background_radiance(S{1, 2, 4}); double b = vp_choice("shutter", 2) ? 9 : 7; Rend R, Q; bool dyn = vp_choice("dynamic", 2); for (Rend* r : {&R, &Q}) { r->set_max_bounces(1); r->set_samples_per_pixel(3); r->set_dynamic_sampling(dyn); r->set_min_samples(2); r->set_variance_threshold(0.01f); } auto a = shoot(w, R, b); bool same = true, flat = true; fate = 77; int how = vp_choice("how", 3); if (how == 0) tbb::vp_pick = any; auto c = shoot(w, how == 1 ? R : Q, b); tbb::vp_pick = nullptr; for (int x = 0; x < 33; ++x) for (size_t k = 0; k < 3; ++k) { if (a(x, 0)[k] != c(x, 0)[k]) same = false; if (a(x, 0)[0] / a(x, 0)[1] != a(0, 0)[0] / a(0, 0)[1]) flat = false; } vp_check(same, "the same scene gives the same image"); vp_check(!flat, "samples are not all alike"); vp_cover("repeat");
}
ENTRY streaks() {   // points of light do not depend on the order of the work either
    init(); World w; w.C.configure_sensor_from_pitch(Resolution{65, 1}, units::Micrometer(1000.)); Rend R; R.set_max_bounces(1); R.set_samples_per_pixel(1); for (int k = 0; k < 3; ++k) { auto in = w.put(w.sc.new_unresolved_object(units::SpectralWattsPerMeterSquared<S>(S{1, 2, (float)k})), D3(100 + 100. * k, 0, 1000)); D3 v = w.K * D3(300 - 150 * k, 0, 0); in.set_velocity(units::MetersPerSecond(v.x), units::MetersPerSecond(v.y), units::MetersPerSecond(v.z)); } auto a = shoot(w, R, 9); tbb::vp_pick = vp_choice("order", 2) ? last : any; auto c = shoot(w, R, 9); tbb::vp_pick = nullptr; bool same = true; int lit = 0; for (int x = 0; x < 65; ++x) { for (size_t k = 0; k < 3; ++k) if (a(x, 0)[k] != c(x, 0)[k]) same = false; if (a(x, 0)[0] > 0) ++lit; } vp_check(same, "the same scene gives the same image"); vp_check(lit > 10, "points leave streaks"); vp_cover("streaks");
}
