//! libs: -lembree4 -lpng
//! entry: history time=60 opts=--sqrtq
//! entry: history_any time=90 opts=--sqrtq
//! entry: history3 tier=thorough thorough=600 opts=--sqrtq
//! entry: focus_history time=60 opts=--sqrtq
//! entry: rejected time=60 opts=--sqrtq
//! bound: histories of two (thorough: three) reconfigurations out of eleven, each followed by every pixel of the sensor, and every point in space for projection and visibility
#include "cam.hpp"
using T = units::Millimeter; using U = units::Micrometer;
// What the camera should amount to after the history
struct Model { bool expl = false; float f = 0.05f; float fx = 0, fy = 0, cx = 1.5f, cy = 1.5f, px = 0.01f, py = 0.01f; int rx = 3, ry = 3; bool blender = false; int dist = 0; float area_f = 0.05f / 2.8f; };
static void dist(Cam& c, int n) { if (n == 1) c.set_brown_conrady_distortion(BrownCoefficients(0.02, 0.01, 0, 0.003, -0.002)); if (n == 2) c.set_owen_distortion(OwenCoefficients(0.01, -0.02, 0.01, 0, 0.005, -0.003)); }
static void op(Cam& c, Model& m, unsigned k) {
    switch (k) {
    case 0: c.set_focal_length(T(40.0)); m.f = 0.04f; m.expl = false; break;
    case 1: c.configure_sensor_from_pitch(Resolution(2, 3), U(10000.0), U(5000.0), 0.5f, 2.0f); m.rx = 2; m.ry = 3; m.px = 0.01f; m.py = 0.005f; m.cx = 0.5f; m.cy = 2; m.expl = false; break;
    case 2: c.configure_sensor_from_size(Resolution(2, 3), T(40.0)); m.rx = 2; m.ry = 3; m.px = m.py = 0.02f; m.cx = 1; m.cy = 1.5f; m.expl = false; break;
    case 3: c.set_intrinsics(3, 5, 1, 2.5f, Resolution(3, 2), T(60.0)); m.expl = true; m.fx = 3; m.fy = 5; m.cx = 1; m.cy = 2.5f; m.rx = 3; m.ry = 2; m.f = 0.06f; m.px = 0.02f; m.py = 0.012f; break;
    case 4: c.use_blender_convention(); m.blender = true; break;
    case 5: c.use_blender_convention(false); m.blender = false; break;
    case 6: dist(c, 1); m.dist = 1; break;
    case 7: dist(c, 2); m.dist = 2; break;
    case 8: c.delete_distortion(); m.dist = 0; break;
    case 10: { SimpleSensorConfig<RGB> q; q.resolution = Resolution(2, 3); q.pitch_x = U(20000.0); q.pitch_y = U(10000.0); c.set_sensor<SimpleSensor<RGB>>(q); m.rx = 2; m.ry = 3; m.px = 0.02f; m.py = 0.01f; m.cx = 1; m.cy = 1.5f; m.expl = false; break; }
    case 9: c.set_fstop(5); m.area_f = m.f / 5; break;
    }
}
// A camera set up once with the same final settings, in a different order
static void fresh(Cam& c, const Model& m) {
    if (m.blender) c.use_blender_convention();
    if (m.expl) c.set_intrinsics(m.fx, m.fy, m.cx, m.cy, Resolution(m.rx, m.ry), units::Meter(m.f));
    else { c.configure_sensor_from_pitch(Resolution(m.rx, m.ry), units::Meter(m.px), units::Meter(m.py), m.cx, m.cy); c.set_focal_length(units::Meter(m.f)); }
    c.set_fstop(m.f / m.area_f); if (m.dist) dist(c, m.dist);
}
static void same(const Cam& a, const Cam& b, const Model& m, bool pts) {
    vp_check(a.resolution().x == m.rx && a.resolution().y == m.ry, "the resolution is the last one set"); vp_check_close(a.focal_length().to_si(), m.f, 1e-5, "the focal length is the last one set"); vp_check_close(a.fstop(), m.f / m.area_f, 1e-4, "the aperture keeps its size");
    for (int x = 0; x < m.rx; x++) for (int y = 0; y < m.ry; y++) {
        F3 d = a.cast_ray(x, y).direction(), e = b.cast_ray(x, y).direction(); vp_close3(d, e, 1e-4, "reconfigured cameras cast the rays of a fresh camera");
        vp_check_close(1e4 * a.pixel_radiance_to_power(x, y), 1e4 * b.pixel_radiance_to_power(x, y), 1e-3, "reconfigured cameras collect light like a fresh camera");
    }
    if (pts) { F3 p = vp_vec3in<float>("p", -10, 10); double z = m.blender ? -p.z : p.z; vp_assume(z > 0.1); bool i = a.in_fov(p), j = b.in_fov(p);
        Pixel s = a.project_point(p), t = b.project_point(p); vp_check_close(s.x, t.x, 1e-3, "reconfigured cameras project like a fresh camera (horizontal)"); vp_check_close(s.y, t.y, 1e-3, "reconfigured cameras project like a fresh camera (vertical)");
        if (i != j) { double e = 1e-3; bool off = s.x < -e || s.x > m.rx + e || s.y < -e || s.y > m.ry + e, on = s.x > e && s.x < m.rx - e && s.y > e && s.y < m.ry - e; vp_check(!(off || on), "reconfigured cameras see what a fresh camera sees"); } }
}
static void run(unsigned n, bool pts, unsigned ops) { Cam a, b; Model m; for (unsigned i = 0; i < n; i++) op(a, m, (unsigned)vp_choice("op", ops)); fresh(b, m); same(a, b, m, pts); vp_cover("history"); }
ENTRY history() { run(2, false, 11); }
ENTRY history3() { run(3, false, 11); }
ENTRY history_any() { run(2, true, 6); }
static F3 lens(const Cam& c, Ray<RGB>& r, float x, float y) { DeterministicSampler<float> s(0.5f, Vec2<float>(0.9f, 0.3f)); r = c.cast_ray(Pixel(x, y), s); return r.origin(); }
ENTRY focus_history() {   // the lens follows focus distance, aperture and focal length, whatever the order
    float d = vp_inf("d", 0.2f, 100); Cam a, b; unsigned k = (unsigned)vp_choice("order", 3); a.enable_depth_of_field(); b.enable_depth_of_field();
    if (k == 0) { a.set_fstop(10); a.set_focal_length(T(40.0)); a.set_focus_distance(units::Meter(d)); } else if (k == 1) { a.set_focus_distance(units::Meter(d)); a.set_fstop(10); a.set_focal_length(T(40.0)); } else { a.set_fstop(10); a.set_focus_distance(units::Meter(3.0)); a.set_focal_length(T(40.0)); a.set_diopters(units::Diopter(1 / (double)d)); }
    b.set_focal_length(T(40.0)); b.set_fstop(8); b.set_focus_distance(units::Meter(d)); Ray<RGB> r, s; F3 o = lens(a, r, 1, 2), q = lens(b, s, 1, 2); vp_close3(o * 1e3f, q * 1e3f, 1e-3, "the aperture keeps its size when the optics change"); vp_close3(r.direction(), s.direction(), 1e-4, "reconfigured cameras focus like a fresh camera"); vp_cover("focushist");
}
ENTRY rejected() {   // rejected settings leave the camera as it was
    Cam a, b; float bad = vp_realf_any("bad"); vp_assume(!(bad > 0) || !std::isfinite(bad)); unsigned k = (unsigned)vp_choice("setting", 4); Model m; bool t = false;
    if (k == 0) { vp_assume(!std::isnan(bad)); t = vp_throws([&] { a.set_focal_length(units::Meter(bad)); }); } else if (k == 1) t = vp_throws([&] { a.set_focus_distance(units::Meter(0.0)); }); else if (k == 2) t = vp_throws([&] { a.set_veiling_glare(vp_bool("hi") ? 1.5f : -0.5f); }); else t = vp_throws([&] { a.set_veiling_glare(std::numeric_limits<float>::quiet_NaN()); });
    vp_check(t, "invalid settings are rejected"); same(a, b, m, false); vp_check(std::isinf(a.get_focus_distance().to_si()), "a rejected focus distance changes nothing"); vp_cover("rejected");
}
