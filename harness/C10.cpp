//! libs: -lembree4 -lpng
//! entry: settings time=40 opts=--pruneDiv0
//! entry: construct time=40
//! entry: rejected time=40
//! entry: decibels time=60 opts=--expadd
//! entry: readout_rgb time=60
//! entry: readout_bins time=60
//! entry: readout_extreme mode=fp time=60
//! entry: noise time=90
//! entry: noise_free_limit time=60
//! bound: sensors of 2x1 pixels, bit depths 1 to 16, every finite setting and received power within [0,1e4] photons' worth; noise drawn by the library's own generator from its initial state (up to 4 readouts)
#define CAMRES 2
#include "cam.hpp"
using B2 = SpectralBins<2, 400, 600, 600, 1000>;
namespace huira { template <> struct SimpleSensorConfig<B2> : public SensorConfig<B2> { SimpleSensorConfig() { resolution = Resolution{2, 2}; pitch_x = units::Micrometer(10000.0); pitch_y = units::Micrometer(10000.0); } }; }
using Sen = SimpleSensor<RGB>;
ENTRY settings() {   // what is set is what is reported, and nothing else moves
    Sen s, d; float v = vp_inf("v", 1e-3f, 1e4f); int w = vp_int("w", 1, 8), h = vp_int("h", 1, 8); unsigned k = vp_choice("setting", 11); w = (int)vp_concretize(w); h = (int)vp_concretize(h);
    if (k == 0) { s.set_full_well_capacity(v); vp_check(s.full_well_capacity() == v, "full well capacity"); }
    if (k == 1) { s.set_read_noise(v); vp_check(s.read_noise() == v, "read noise"); s.set_read_noise(0); vp_check(s.read_noise() == 0, "read noise may be zero"); }
    if (k == 2) { s.set_dark_current(v); vp_check(s.dark_current() == v, "dark current"); s.set_dark_current(0); vp_check(s.dark_current() == 0, "dark current may be zero"); }
    if (k == 3) { s.set_bias_level_dn(v); vp_check(s.bias_level_dn() == v, "bias"); s.set_bias_level_dn(0); vp_check(s.bias_level_dn() == 0, "bias may be zero"); }
    if (k == 4) { s.set_gain_adu(v); vp_check(s.gain_adu() == v, "gain"); }
    if (k == 5) { s.set_bit_depth(w); vp_check(s.bit_depth() == w, "bit depth"); }
    if (k == 6) { s.set_unity_db(-v); vp_check(s.unity_db() == -v, "unity level"); }
    if (k == 7) { float q = vp_inf("q", 0, 1); RGB e{q, 0, 1}; s.set_quantum_efficiency(e); for (int i = 0; i < 3; i++) vp_check(s.quantum_efficiency()[(std::size_t)i] == e[(std::size_t)i], "quantum efficiency"); }
    if (k == 8) { s.set_rotation(units::Radian(v)); vp_check_close(s.rotation().to_si(), v, 1e-6, "rotation"); s.set_simulate_noise(false); vp_check(!s.simulate_noise(), "noise switch"); }
    if (k == 9) { s.set_resolution(Resolution(w, h)); s.set_pixel_pitch(units::Micrometer(v), units::Micrometer(2 * v)); vp_check(s.resolution().x == w && s.resolution().y == h, "resolution"); vp_check_close(1e6 * s.pixel_pitch().x, v, 1e-5, "pitch"); vp_check_close(1e6 * s.pixel_pitch().y, 2 * v, 1e-5, "vertical pitch"); vp_check_close(1e6 * s.sensor_size().x, w * v, 1e-5, "width is pixels times pitch"); vp_check_close(1e6 * s.sensor_size().y, 2 * h * v, 1e-5, "height is pixels times pitch"); }
    if (k == 10) { s.set_resolution(Resolution(w, h)); s.set_sensor_size(units::Millimeter(v), units::Millimeter(3 * v)); vp_check_close(1e3 * s.sensor_size().x, v, 1e-5, "width"); vp_check_close(1e3 * s.sensor_size().y, 3 * v, 1e-5, "height"); vp_check_close(1e3 * s.pixel_pitch().x * w, v, 1e-5, "pitch follows size"); }
    if (k != 0) vp_check(s.full_well_capacity() == d.full_well_capacity(), "other settings stay"); if (k != 1) vp_check(s.read_noise() == d.read_noise(), "other settings stay"); if (k != 2) vp_check(s.dark_current() == d.dark_current(), "other settings stay"); if (k != 3) vp_check(s.bias_level_dn() == d.bias_level_dn(), "other settings stay");
    if (k != 4) vp_check(s.gain_adu() == d.gain_adu(), "other settings stay"); if (k != 5) vp_check(s.bit_depth() == d.bit_depth(), "other settings stay"); if (k < 9) vp_check(s.resolution() == d.resolution() && s.pixel_pitch().x == d.pixel_pitch().x && s.pixel_pitch().y == d.pixel_pitch().y, "other settings stay");
    vp_cover("settings");
}
ENTRY construct() {
    SimpleSensorConfig<RGB> c; int w = vp_int("w", -2, 3), h = vp_int("h", -2, 3); double p = vp_in("p", -2, 2), q = vp_in("q", -2, 2); vp_assume(p * p > 1e-6 || p == 0); vp_assume(q * q > 1e-6 || q == 0); c.resolution = Resolution(w, h); c.pitch_x = units::Micrometer(p); c.pitch_y = units::Micrometer(q);
    bool t = vp_throws([&] { Sen s(c); vp_check(s.resolution().x == w && s.resolution().y == h, "configured resolution"); vp_check_close(1e6 * s.pixel_pitch().x, p, 1e-5, "configured pitch"); vp_check_close(1e6 * s.pixel_pitch().y, q, 1e-5, "configured pitch"); });
    vp_check(t == (w < 0 || h < 0 || p <= 0 || q <= 0), "exactly impossible geometries are rejected"); vp_cover("construct");
}
ENTRY rejected() {   // non-finite and impossible settings are rejected and leave the old value
    Sen s; float v = vp_realf_any("v"); bool fin = std::isfinite(v), pos = fin && v > 0, nn = fin && v >= 0; unsigned k = vp_choice("setting", 10); int n = vp_int("n", -100, 100); bool t = false, want = false;
    float o[6] = {s.full_well_capacity(), s.read_noise(), s.dark_current(), s.bias_level_dn(), s.gain_adu(), s.unity_db()}; RGB qe = s.quantum_efficiency();
    if (k == 0) { t = vp_throws([&] { s.set_full_well_capacity(v); }); want = !pos; } if (k == 1) { t = vp_throws([&] { s.set_read_noise(v); }); want = !nn; } if (k == 2) { t = vp_throws([&] { s.set_dark_current(v); }); want = !nn; }
    if (k == 3) { t = vp_throws([&] { s.set_bias_level_dn(v); }); want = !nn; } if (k == 4) { t = vp_throws([&] { s.set_gain_adu(v); }); want = !pos; } if (k == 5) { t = vp_throws([&] { s.set_unity_db(v); }); want = !fin; }
    if (k == 6) { t = vp_throws([&] { s.set_bit_depth(n); }); want = n <= 0; vp_check(s.bit_depth() == (t ? 12 : n), "bit depth kept or set"); }
    if (k == 7) { RGB q{0.5f, 0.5f, 0.5f}; q[vp_choice("i", 3)] = v; t = vp_throws([&] { s.set_quantum_efficiency(q); }); want = !(v >= 0 && v <= 1); for (std::size_t i = 0; i < 3; i++) vp_check(s.quantum_efficiency()[i] == (t ? qe[i] : q[i]), "quantum efficiency kept or set"); }
    if (k == 8) { bool i = vp_bool("neg"); t = vp_throws([&] { s.set_resolution(i ? Resolution(n, 1) : Resolution(1, n)); }); want = n < 0; if (t) vp_check(s.resolution() == Resolution(2, 2), "resolution kept"); }
    if (k == 9) { vp_assume(!std::isnan(v)); vp_assume(std::isinf(v) || v <= 0); bool a = vp_bool("first"), z = vp_bool("size"); units::Micrometer one(1.0), bad(v); t = vp_throws([&] { if (z) s.set_sensor_size(a ? bad : one, a ? one : bad); else s.set_pixel_pitch(a ? bad : one, a ? one : bad); }); want = true; vp_check(1e6f * s.pixel_pitch().x > 9999 && 1e6f * s.pixel_pitch().y > 9999, "pitch kept"); }
    vp_check(t == want, "exactly invalid settings are rejected"); float g[6] = {s.full_well_capacity(), s.read_noise(), s.dark_current(), s.bias_level_dn(), s.gain_adu(), s.unity_db()};
    for (unsigned i = 0; i < 6; i++) if (t || i != k) vp_check(g[i] == o[i], "a rejected setting changes nothing"); else vp_check(g[i] == v, "an accepted setting is stored");
    vp_cover("rejected");
}
ENTRY decibels() {   // 20 dB of gain is a factor of ten, relative to the unity level
    Sen s; float u = vp_inf("u", -100, 100), g = vp_inf("g", -100, 100), h = vp_inf("h", -100, 100); s.set_unity_db(u); s.set_gain_db(g); float a = s.gain_adu(); s.set_gain_db(h); float b = s.gain_adu(); s.set_gain_db(g + 20); float c = s.gain_adu(); s.set_gain_db(g - 40); float d = s.gain_adu(); s.set_gain_db(u); float e = s.gain_adu();
    vp_check_close(e, 1, 1e-4, "the unity level is one electron per count"); vp_check_close(10 * c, a, 1e-3, "20 dB more divide the electrons per count by ten"); vp_check_close(d / 100, a, 1e-3, "40 dB less multiply it by a hundred"); vp_check(a > 0 && b > 0, "gain stays positive"); if (h > g + 1e-3f) vp_check(b < a, "more gain means fewer electrons per count");
    bool t = vp_throws([&] { s.set_gain_db(std::numeric_limits<float>::infinity()); }); t = t && vp_throws([&] { s.set_gain_db(std::numeric_limits<float>::quiet_NaN()); }); vp_check(t, "gains that are not finite are rejected"); vp_check(s.gain_adu() == e, "a rejected gain changes nothing"); vp_cover("decibels");
}
static double clampd(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
static float pix(const Image<RGB>& m, int x, int i) { return m(x, 1)[(std::size_t)i]; }
ENTRY readout_rgb() {   // no noise: photons, electrons, full well, counts, clipping - channel by channel
    Cam c; auto fb = c.make_frame_buffer(); fb.enable_sensor_response(); SimpleSensorConfig<RGB> g; unsigned bits = vp_choice("bits", 4), ch = vp_choice("channel", 3); bits = bits == 0 ? 1 : bits == 1 ? 8 : bits == 2 ? 12 : 16;
    g.simulate_noise = false; g.read_noise = 50; g.dark_current = 1000; g.bias_level_dn = 500; g.bit_depth = (int)bits; g.full_well_capacity = vp_inf("fwc", 1, 1e5f); g.gain = vp_inf("gain", 0.1f, 100); float qe = vp_inf("qe", 0, 1), ph = vp_inf("photons", 0, 1e6f), dt = vp_inf("dt", 0.01f, 100); RGB E = RGB::photon_energies();
    RGB q{0.3f, 0.3f, 0.3f}; q[ch] = qe; g.quantum_efficiency = q; RGB w{0, 0, 0}; w[ch] = ph * E[ch]; fb.received_power().fill(RGB{0, 0, 0}); fb.received_power()(1, 1) = w; Sen s(g); s.readout(fb, units::Second(dt));
    double mx = std::pow(2.0, bits) - 1, e = (double)ph * dt * qe, dn = (e < g.full_well_capacity ? e : g.full_well_capacity) / g.gain, want = clampd(dn, 0, mx) / mx;
    for (int i = 0; i < 3; i++) { vp_check_close(pix(fb.sensor_response(), 1, i), i == (int)ch ? want : 0.0, 1e-4, "counts are electrons over gain, clipped to full well and range"); vp_check(pix(fb.sensor_response(), 0, i) == 0, "a dark pixel reads zero without noise"); }
    for (int x = 0; x < 2; x++) for (std::size_t i = 0; i < 3; i++) vp_check(fb.sensor_response()(x, 0)[i] == 0, "a dark pixel reads zero without noise");
    vp_check(fb.sensor_response().sensor_bit_depth() == (int)bits, "the image records the bit depth"); vp_check(fb.received_power()(1, 1)[ch] == w[ch], "reading out keeps the received power"); vp_cover("readout");
}
ENTRY readout_bins() {   // other spectra: all electrons end up in one count
    CameraModel<B2> c; auto fb = c.make_frame_buffer(); fb.enable_sensor_response(); SimpleSensorConfig<B2> g; g.simulate_noise = false; g.bit_depth = 10; g.gain = 2; g.full_well_capacity = vp_inf("fwc", 1, 1e4f); B2 E = B2::photon_energies(); float a = vp_inf("a", 0, 1e4f), b = vp_inf("b", 0, 1e4f), dt = vp_inf("dt", 0.01f, 100), p = vp_inf("p", 0, 1), q = vp_inf("q", 0, 1);
    g.quantum_efficiency = B2{p, q}; fb.received_power().fill(B2{0, 0}); fb.received_power()(0, 1) = B2{a * E[0], b * E[1]}; SimpleSensor<B2> s(g); s.readout(fb, units::Second(dt)); double e = ((double)a * p + (double)b * q) * dt; if (e > g.full_well_capacity) e = g.full_well_capacity;
    vp_check_close(fb.sensor_response()(0, 1), clampd(e / 2, 0, 1023) / 1023, 1e-4, "the electrons of all bins add up before clipping"); vp_check(fb.sensor_response()(1, 1) == 0, "a dark pixel reads zero without noise"); vp_cover("bins");
}
ENTRY readout_extreme() {   // whatever the power, the reading is within range
    CameraModel<B2> c; auto fb = c.make_frame_buffer(); fb.enable_sensor_response(); SimpleSensorConfig<B2> g; g.simulate_noise = false; g.bit_depth = 8; g.gain = 1; g.quantum_efficiency = B2{1, 0}; float p = vp_realf_any("p"); vp_assume(!std::isnan(p) && !std::isinf(p)); fb.received_power().fill(B2{0, 0}); fb.received_power()(0, 0) = B2{p, 0}; SimpleSensor<B2> s(g); s.readout(fb, units::Second(1.0)); float v = fb.sensor_response()(0, 0);
    vp_check(v >= 0 && v <= 1, "readings stay within [0,1]"); if (p <= 0) vp_check(v == 0, "no light reads zero"); if (p > 1) vp_check(v == 1, "bright light saturates"); vp_cover("extreme");
}
// with noise: how far a reading is from its expectation, in counts
static double noisy(Cam& c, SimpleSensorConfig<RGB>& g, float e, float dt, int n, double bound, const char* l) {
    auto fb = c.make_frame_buffer(); fb.enable_sensor_response(); RGB E = RGB::photon_energies(); fb.received_power().fill(E * (e / dt)); Sen s(g); double last = 0, mx = std::pow(2.0, g.bit_depth) - 1, m = ((double)e * 0.5 + g.dark_current * dt) / g.gain + g.bias_level_dn;
    for (int k = 0; k < n; k++) { s.readout(fb, units::Second(dt)); for (int i = 0; i < 3; i++) { double v = pix(fb.sensor_response(), 1, i); vp_check(v >= 0 && v <= 1, "noisy readings stay in range"); vp_check(v * mx - m < bound && m - v * mx < bound, l); last = v; } }
    return last;
}
ENTRY noise() {   // readings scatter about the expectation: bias, dark current times exposure and signal; by read noise and the square root of the electrons
    Cam c; SimpleSensorConfig<RGB> g; g.quantum_efficiency = RGB{0.5f, 0.5f, 0.5f}; g.bit_depth = 16; g.full_well_capacity = 1e9f; g.gain = vp_inf("gain", 1, 4); float k = vp_inf("k", 1, 2);
    unsigned what = vp_choice("what", 3);
    if (what == 0) { g.bias_level_dn = vp_inf("bias", 100, 1000); g.read_noise = k; g.dark_current = 0; noisy(c, g, 0, 1, 2, 6 * k / g.gain, "read noise scatters dark readings about the bias"); }
    if (what == 1) { g.bias_level_dn = 200; g.read_noise = 0; g.dark_current = 100 * k * k; bool lng = vp_fork(vp_bool("long")); g.dark_current *= lng ? 1 : 100; float dt = lng ? vp_inf("dt", 1, 9) : vp_inf("dt", 0.04f, 1); noisy(c, g, 0, dt, 2, (lng ? 6 * 10 * k * dt : 6 * 100 * k) / g.gain, "dark current grows with the exposure"); }
    if (what == 2) { g.bias_level_dn = 0; g.read_noise = 0; g.dark_current = 0; noisy(c, g, 20000 * k * k, 2, 2, 6 * 100 * k / g.gain, "the signal scatters by its square root"); }
    vp_cover("noise");
}
ENTRY noise_free_limit() {   // vanishing sources leave the bias; saturation stops at full well
    Cam c; SimpleSensorConfig<RGB> g; g.quantum_efficiency = RGB{0.5f, 0.5f, 0.5f}; g.bit_depth = 16; g.gain = 2; g.read_noise = 0; g.dark_current = 0; g.bias_level_dn = vp_inf("bias", 0, 1000); bool sat = vp_bool("sat"); g.full_well_capacity = vp_inf("fwc", 100, 1000); auto fb = c.make_frame_buffer(); fb.enable_sensor_response(); float e = sat ? vp_inf("e", 1e4f, 1e6f) : 0; fb.received_power().fill(RGB::photon_energies() * e); Sen s(g); s.readout(fb, units::Second(1.0));
    for (int i = 0; i < 3; i++) vp_check_close(pix(fb.sensor_response(), 0, i) * 65535.0, g.bias_level_dn + (sat ? g.full_well_capacity / 2 : 0.0), 1e-4, sat ? "saturated pixels read full well over gain plus bias" : "a dark pixel without noise sources reads the bias"); vp_cover("limit");
}
