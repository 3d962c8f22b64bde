// C35: points of light
//! entry: points time=60
//! entry: hidden time=60
//! entry: each time=60
//! entry: moving mode=fp time=60
//! entry: blurred mode=fp time=60
//! entry: aberrated time=60
//! entry: seam mode=fp time=60
//! entry: spread time=60
//! entry: convolved time=60
//! libs: -lassimp -lfftw3f -lpng -lturbojpeg -ltiff -lcfitsio
//! assume: the ray-tracing library is a stand-in: every instance is the whole plane through its place, facing the camera
//! bound: images of 5 by 5 pixels, up to two points, concrete directions and motions; exact real arithmetic
#define CAMRES 5
#include "scene34.hpp"
static const int N = CAMRES; static const float AT[7][2] = {{2.5f, 2.5f}, {0.25f, 0.5f}, {4.75f, 4.75f}, {3.1f, 0.2f}, {-0.5f, 2.5f}, {2.5f, 5.5f}, {1.02f, 3.98f}};
static F3 toward(World& w, float x, float y) { float f = w.C.get()->focal_length().to_si_f() / 0.01f; F3 d((x - 2.5f) / f, (y - 2.5f) / f, 1); return d / std::sqrt(glm::dot(d, d)); }
static Image<S> shoot(World& w, bool depth = false, ObservationMode m = ObservationMode::TRUE_STATE, double b = 7) { auto v = w.view(m, b); FB fb = w.C.make_frame_buffer(); fb.enable_received_power(); if (depth) fb.enable_depth(); Rend R; R.set_max_bounces(1); R.set_samples_per_pixel(1); script({}); R.render(v, fb); return fb.received_power(); }
static void star(World& w, D3 d, S e) { w.sc.set_stars({Star<S>(w.K * d, e)}); }
static HI blob(World& w, D3 p, S e) { return w.put(w.sc.new_unresolved_object(units::SpectralWattsPerMeterSquared<S>(e)), p); }
static void only(World& w, const Image<S>& im, int px, int py, S e, F3 d, const char* l) { float a = w.C.get()->get_projected_aperture_area(d); for (int y = 0; y < N; ++y) for (int x = 0; x < N; ++x) { bool me = x == px && y == py; for (size_t c = 0; c < 3; ++c) if (me) vp_check_close(im(x, y)[c], e[c] * a, 1e-3, l); else vp_check(im(x, y)[c] == 0, "points shine on no other pixel"); } }
ENTRY points() {   // points shine on the pixel they are on
    init(); World w(vp_choice("rotation", 3)); S e = rgb("irradiance", 0, 100); const float* at = AT[vp_choice("at", 7)]; F3 d = toward(w, at[0], at[1]); std::vector<Star<S>> st{Star<S>(w.K * D3(0, 0, -1), e)}; if (vp_choice("star", 2)) st.push_back(Star<S>(w.K * d3(d), e)); else blob(w, d3(d) * 1000., e); w.sc.set_stars(st); blob(w, D3(0, 0, -50), e); auto im = shoot(w, vp_choice("depth", 2)); bool in = at[0] >= 0 && at[0] < 5 && at[1] >= 0 && at[1] < 5; only(w, im, in ? (int)at[0] : -1, in ? (int)at[1] : -1, e, d, "points shine on the pixel they are on with all of their light"); vp_cover("points");
}
ENTRY hidden() {   // surfaces hide what is behind them, and nothing else
    init(); World w(vp_choice("rotation", 2) * 2); auto m = w.sc.new_material(w.sc.new_bsdf_lambertian()); S g = rgb("glow", 0, 1); m.set_emissive_factor(g); float al = vp_choice("clear", 2) ? 0.25f : 1; m.set_alpha_factor(al); w.put(w.sc.add_primitive(tri(w.sc), m), D3(-0.25, -0.25, 50)); S e = rgb("irradiance", 0, 100); F3 d = toward(w, 3.5f, 1.5f); int k = vp_choice("where", 3); if (k == 0) star(w, d3(d), e); else blob(w, d3(d) * (k == 1 ? 40. : 70.), e); auto im = shoot(w, vp_choice("depth", 2)); S see = al < 1 ? S{0} : g; bool seen = k == 1 || al < 1; float a = w.C.get()->get_projected_aperture_area(d); for (int y = 0; y < N; ++y) for (int x = 0; x < N; ++x) { bool me = x == 3 && y == 1; float p = w.C.get()->pixel_radiance_to_power(x, y); for (size_t c = 0; c < 3; ++c) vp_check_close(im(x, y)[c], see[c] * p + (me && seen ? e[c] * a : 0), 1e-3, me ? "surfaces hide the points behind them, and only those" : "points shine on no other pixel"); } vp_cover("hidden");
}
ENTRY each() {   // every instance of an object has its own distance
    init(); World w(vp_choice("rotation", 2)); float P = vp_inf("power", 0, 1e6f); auto o = w.sc.new_unresolved_emitter(units::Watt((double)P)); F3 a = toward(w, 1.5f, 1.5f), b = toward(w, vp_choice("same", 2) ? 1.25f : 3.5f, 1.5f); static const double DI[3][2] = {{100, 300}, {300, 100}, {200, 200}}; const double* di = DI[vp_choice("distance", 3)]; w.put(o, d3(a) * di[0]); auto second = w.put(o, d3(b) * di[1]); auto im = shoot(w); auto part = [&](F3 d, double r) { return (double)w.C.get()->get_projected_aperture_area(d) / (4 * 3.14159265358979 * r * r); }; bool one = b.x < 0 && b.x / b.z < (2 - 2.5f) * 0.01f / w.C.get()->focal_length().to_si_f(); double pa = part(a, di[0]), pb = part(b, di[1]); auto all = [&](int x, int y) { double s = 0; for (size_t c = 0; c < 3; ++c) s += im(x, y)[c]; return s; }; vp_check_close(all(1, 1), P * (pa + (one ? pb : 0)), 1e-3, "every instance shines as far away as it is"); vp_check_close(all(3, 1), one ? 0 : P * pb, 1e-3, "every instance shines as far away as it is"); (void)second; vp_cover("each");
}
ENTRY moving() {   // light is spread along the way things move, by how long they are there
    init(); World w(vp_choice("rotation", 2)); S e = vp_choice("bright", 2) ? S{64, 32, 16} : S{0.5f, 0.25f, 0}; static const float WAY[4][4] = {{1.5f, 2.5f, 3.5f, 2.5f}, {3.3f, 0.4f, 3.3f, 4.4f}, {2.5f, 2.5f, 7.5f, 2.5f}, {2.5f, 2.5f, 2.5f, 2.5f}}; const float* q = WAY[vp_choice("way", 4)]; float f = w.C.get()->focal_length().to_si_f() / 0.01f; auto pt = [&](float x, float y) { return D3((x - 2.5f) / f, (y - 2.5f) / f, 1) * 1000.; }; auto in = blob(w, pt(q[0], q[1]), e); D3 v = w.K * ((pt(q[2], q[3]) - pt(q[0], q[1])) / 2.); in.set_velocity(units::MetersPerSecond(v.x), units::MetersPerSecond(v.y), units::MetersPerSecond(v.z)); auto im = shoot(w, false, ObservationMode::TRUE_STATE, 9); double sum[3] = {}, off[3] = {}; for (int y = 0; y < N; ++y) for (int x = 0; x < N; ++x) for (size_t c = 0; c < 3; ++c) { bool on = (q[0] == q[2] ? x == (int)q[0] : x >= (int)q[0] && x <= (int)q[2]) && (q[1] == q[3] ? y == (int)q[1] : y >= (int)q[1] && y <= (int)q[3]); (on ? sum : off)[c] += im(x, y)[c] / w.C.get()->get_projected_aperture_area(w.C.get()->cast_ray(Pixel{(float)x + 0.5f, (float)y + 0.5f}).direction()); }
    double part = q[2] > 5 ? 0.5 : 1, tol = q[0] == q[2] && q[1] == q[3] ? 0.001 : 0.04; for (size_t c = 0; c < 3; ++c) { vp_check_close(off[c], 0, 1e-6, "light is spread along the way things move"); vp_check(sum[c] <= e[c] * part * (1 + tol) + 1e-9 && sum[c] >= e[c] * part * (1 - tol) - 1e-9, "things shine for as long as they are in the frame"); } vp_cover("moving");
}
ENTRY blurred() {   // out of focus, light is spread around where the point is
    init(); World w(0); w.C.set_focus_distance(units::Meter(0.04)); S e = vp_choice("bright", 2) ? S{64, 32, 16} : S{0.5f, 0.25f, 0}; static const float P[5][2] = {{2.5f, 2.5f}, {2.25f, 2.75f}, {2.0f, 2.5f}, {2.95f, 2.05f}, {2.4f, 2.6f}}; const float* at = P[vp_choice("at", 5)]; F3 d = toward(w, at[0], at[1]); star(w, d3(d), e); auto im = shoot(w); double sum[3] = {}, cx = 0, cy = 0; for (int y = 0; y < N; ++y) for (int x = 0; x < N; ++x) { for (size_t c = 0; c < 3; ++c) sum[c] += im(x, y)[c]; cx += im(x, y)[0] * (x + 0.5); cy += im(x, y)[0] * (y + 0.5); } float a = w.C.get()->get_projected_aperture_area(d); for (size_t c = 0; c < 3; ++c) vp_check_close(sum[c], e[c] * a, 1e-3, "blurring neither adds nor takes light"); double m = e[0] * a, dx = cx - at[0] * m, dy = cy - at[1] * m; vp_check(dx <= 0.15 * m && dx >= -0.15 * m && dy <= 0.15 * m && dy >= -0.15 * m, "light is spread around where the point is"); vp_check(im(0, 0)[0] == 0 && im((int)at[0], (int)at[1])[0] > 0.2 * m && im((int)at[0], (int)at[1])[0] < 0.9 * m, "out of focus, points are discs"); vp_cover("blurred");
}
ENTRY aberrated() {   // stars move with the observer's speed only where that is asked for
    init(); World w(0); S e = rgb("irradiance", 0, 100); double V = 0.6 * 299792458.0; int ax = vp_choice("axis", 2); w.cam.set_velocity(units::MetersPerSecond(ax ? 0. : V), units::MetersPerSecond(ax ? V : 0.), units::MetersPerSecond(0.)); int k = vp_choice("mode", 3); ObservationMode m[3] = {ObservationMode::TRUE_STATE, ObservationMode::GEOMETRIC_STATE, ObservationMode::ABERRATED_STATE}; int which = vp_choice("star", 2); D3 d = which ? D3(0, 0, 1) : ax ? D3(0, -0.6, 0.8) : D3(-0.6, 0, 0.8); star(w, d, e); auto im = shoot(w, false, m[k]); bool see = which == (k < 2); only(w, im, see ? 2 : -1, 2, e, F3(0, 0, 1), "stars are seen where they appear to the observer"); vp_cover("aberrated");
}
ENTRY seam() {   // nothing is lost where pieces of the image meet
    init(); World w(0); int tall = vp_choice("tall", 2); w.C.configure_sensor_from_pitch(tall ? Resolution{5, 70} : Resolution{70, 5}, units::Micrometer(10000.)); w.C.set_focal_length(units::Millimeter(500.)); w.C.set_focus_distance(units::Meter(0.4)); static const float P[4] = {63.5f, 63.99f, 64.01f, 65.5f}; float at = P[vp_choice("at", 4)]; float f = 50, big = (at - 35) / f; F3 d = tall ? F3(0, big, 1) : F3(big, 0, 1); d = d / std::sqrt(glm::dot(d, d)); S e{64, 32, 16}; star(w, d3(d), e); auto v = w.view(); FB fb = w.C.make_frame_buffer(); fb.enable_received_power(); Rend R; auto im = R.render_unresolved_(v, fb); double sum = 0, c = 0, side = 0; for (int y = 0; y < im.height(); ++y) for (int x = 0; x < im.width(); ++x) { sum += im(x, y)[1]; c += im(x, y)[1] * ((tall ? y : x) + 0.5); if (x >= 64 || y >= 64) side += im(x, y)[1]; } float a = w.C.get()->get_projected_aperture_area(d); vp_check_close(sum, e[1] * a, 1e-3, "nothing is lost where pieces of the image meet"); vp_check(c >= (at - 0.2) * sum && c <= (at + 0.2) * sum, "light is spread around where the point is"); vp_check(side > 0.1 * sum && side < 1.0001 * sum, "points spill over the seam"); vp_cover("seam");
}
static S spot(int r, int bank, int x, int y, S tint) { static const float K[5] = {1, 2, 8, 3, 0.5f}; float v = K[x + 2 - r] * K[y + 2 - r] * (x > y ? 1.25f : 1) * (1 + 0.125f * (float)bank) / 256; return tint * v; }
template <typename T> struct Spot : PSF<T> { Spot(int r, T tint) { auto& q = this->cache_; q.radius = r; q.banks = 2; q.dim = 2 * r + 1; for (int b = 0; b < 4; ++b) { Image<T> im(q.dim, q.dim); for (int y = 0; y < q.dim; ++y) for (int x = 0; x < q.dim; ++x) im(x, y) = spot(r, b, x, y, tint); q.kernels.push_back(im); } } T evaluate(float, float) override { return T{}; } };
ENTRY spread() {   // a point-spread function is placed where the point is
    init(); World w(0); int r = 1 + vp_choice("radius", 2); S tint{1, 0.5f, 0.25f}; w.C.template set_psf<Spot<S>>(r, tint); S e = rgb("irradiance", 0, 1e-9f); static const float P[6][2] = {{2.5f, 2.5f}, {2.0f, 2.6f}, {0.5f, 4.5f}, {4.55f, 1.0f}, {0.25f, 0.25f}, {3.05f, 3.1f}}; const float* at = P[vp_choice("at", 6)]; F3 d = toward(w, at[0], at[1]); if (vp_choice("object", 2)) blob(w, d3(d) * 1000., e); else star(w, d3(d), e); auto im = shoot(w); float a = w.C.get()->get_projected_aperture_area(d); S ph = S::photon_energies();
    int px = (int)std::floor(at[0] - 0.45f), py = (int)std::floor(at[1] - 0.45f), bank = (at[0] - 0.45f - (float)px >= 0.5f) + 2 * (at[1] - 0.45f - (float)py >= 0.5f); for (int y = 0; y < N; ++y) for (int x = 0; x < N; ++x) { int kx = x - px + r, ky = y - py + r; bool in = kx >= 0 && ky >= 0 && kx <= 2 * r && ky <= 2 * r; S k = in ? spot(r, bank, kx, ky, tint) : S{0}; bool edge = r == 2 && in && (kx == 0 || ky == 0 || kx == 4 || ky == 4); for (size_t c = 0; c < 3; ++c) { double ideal = (double)k[c] * e[c] * a, got = im(x, y)[c], q = ph[c]; if (!edge) vp_check_close(got / q, ideal / q, 1e-3, "points are spread by the point-spread function"); else vp_check((got - ideal) / q < 1e-3 && (ideal - got) / q < 0.2, "only light too faint to matter is left out"); } } vp_cover("spread");
}
ENTRY convolved() {   // surfaces are blurred by it where asked for
    init(); World w(0); S tint{1, 0.5f, 0.25f}; bool ask = vp_choice("convolve", 2), have = vp_choice("psf", 3); if (have) w.C.template set_psf<Spot<S>>(1, tint); w.C.enable_psf_convolution(ask); auto m = w.sc.new_material(w.sc.new_bsdf_lambertian()); S g = rgb("glow", 0, 1); m.set_emissive_factor(g); w.put(w.sc.add_primitive(tri(w.sc), m), D3(-0.25, -0.25, 50)); auto im = shoot(w); for (int y = 0; y < N; ++y) for (int x = 0; x < N; ++x) { S want{0}; if (!ask || !have) want = g * w.C.get()->pixel_radiance_to_power(x, y); else for (int ky = 0; ky < 3; ++ky) for (int kx = 0; kx < 3; ++kx) { int sx = x + 1 - kx, sy = y + 1 - ky; if (sx >= 0 && sy >= 0 && sx < N && sy < N) want += g * spot(1, 0, kx, ky, tint) * w.C.get()->pixel_radiance_to_power(sx, sy); } for (size_t c = 0; c < 3; ++c) vp_check_close(im(x, y)[c], want[c], 1e-3, "surfaces are blurred by the point-spread function where asked for"); } vp_cover("convolved");
}
