//! libs: -lembree4 -lpng
//! entry: area time=40 opts=--sqrtq
//! entry: lens_disc time=60 opts=--trigax
//! entry: lens_symmetry time=60 opts=--trigax
//! entry: kernel time=120 opts=--sqrtq,--sqrtx
//! entry: kernel_large tier=thorough thorough=600 opts=--sqrtq,--sqrtx
//! entry: bank time=40
//! entry: threshold time=40
//! bound: blur discs with a radius of 0.5 to 2 pixels (thorough: 4), sub-pixel positions of a quarter pixel; all lens sample points, diameters and areas within the ranges in the harness
#include "vp.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/cameras/apertures/circular_aperture.hpp"
using namespace huira;
using A = CircularAperture<RGB>; using namespace units; static const double Pi = 3.14159265358979323846;
ENTRY area() {
    float d = vp_inf("d", 1e-4f, 10), s = vp_inf("s", 1e-6f, 100); A a{Meter(d)}; vp_check_close(a.get_diameter().to_si(), d, 1e-5, "the diameter is the one set"); vp_check_close(a.get_area().to_si(), Pi * d * d / 4, 1e-4, "the area is that of the circle"); vp_check_close(2 * a.get_bounding_radius().to_si(), d, 1e-5, "the circle bounds itself");
    a.set_area(SquareMeter(s)); double e = a.get_diameter().to_si(); vp_check_close(a.get_area().to_si(), s, 1e-4, "the area is the one set"); vp_check_close(Pi * e * e / 4, s, 1e-4, "the diameter follows the area"); vp_check_close(2 * a.get_bounding_radius().to_si(), e, 1e-5, "the bound follows the area"); vp_check(e > 0, "diameters are positive");
    a.set_diameter(Meter(d)); vp_check_close(a.get_area().to_si(), Pi * d * d / 4, 1e-4, "the area follows the diameter"); vp_check_close(2 * a.get_bounding_radius().to_si(), d, 1e-5, "the bound follows the diameter"); vp_cover("area");
}
static Vec2<float> at(const A& a, float u, float v) { DeterministicSampler<float> s(0.5f, Vec2<float>(u, v)); return a.sample(s); }
ENTRY lens_disc() {   // the unit square maps to the disc, squares to circles, areas in proportion
    float d = vp_inf("d", 0.1f, 10), u = vp_inf("u", 0, 1), v = vp_inf("v", 0, 1); A a{Meter(2 * d)}; Vec2<float> p = at(a, u, v); double x = 2.0 * u - 1, y = 2.0 * v - 1, m = x * x > y * y ? x * x : y * y, r2 = (double)p.x * p.x + (double)p.y * p.y;
    vp_check_close(r2, m * d * d, 1e-4, "lens points lie on the circle through the larger coordinate"); vp_check(r2 <= 1.001 * d * d, "lens points lie within the aperture");
    bool h = vp_fork(x * x > y * y); float q = PI<float>() / 4.f, fx = 2 * u - 1, fy = 2 * v - 1, ang = 0; if (h) ang = q * (fy / fx); else if (vp_fork(m > 0)) ang = 2 * q - q * (fx / fy); double r = h ? x : y; vp_check_close(p.x, d * r * std::cos(ang), 1e-3, "angles are spread evenly"); vp_check_close(p.y, d * r * std::sin(ang), 1e-3, "angles are spread evenly (vertical)"); vp_cover("disc");
}
ENTRY lens_symmetry() {
    float d = vp_inf("d", 0.1f, 10), u = vp_inf("u", 0, 1), v = vp_inf("v", 0, 1); A a{Meter(2 * d)}; double x = 2.0 * u - 1, y = 2.0 * v - 1; vp_assume(x * x > y * y + 1e-3 || x * x < y * y - 1e-3); Vec2<float> p = at(a, u, v), q = at(a, 1 - u, 1 - v); vp_check_close(p.x, -q.x, 1e-3, "opposite samples are opposite points"); vp_check_close(p.y, -q.y, 1e-3, "opposite samples are opposite points (vertical)");
    Vec2<float> t = at(a, 0.5f, 0.5f), e = at(a, 1, 0.5f), w = at(a, 0.5f, 0); vp_check(t.x == 0 && t.y == 0, "the centre is the centre"); vp_check_close(e.x, d, 1e-4, "the right edge"); vp_check_close(w.y, -d, 1e-4, "the lower edge"); vp_cover("symmetry");
}
static double cover(double r, double dx, double dy) { double c = r + 0.5 - std::sqrt(dx * dx + dy * dy); return c < 0 ? 0 : c > 1 ? 1 : c; }
// each kernel is the disc of confusion about the sub-pixel position it stands for, spread over the pixels with total one
static void kern(float lo, float hi, int reach, bool vary = false) {
    float r = vp_inf("r", lo, hi), D = vary && vp_fork(vp_bool("near")) ? -0.5f * r : 0.5f * r; bool wide = vary && vp_fork(vp_bool("wide")); A a{Meter(4.0)}; a.build_defocus_kernel(Diopter(D), Meter(0.001953125), Meter(0.001953125), Meter(wide ? 0.00390625 : 0.001953125), 4);
    vp_check(a.has_defocus(), "a visible blur is kept"); vp_check_close(a.get_defocus_radius(), r, 1e-4, "the blur radius is aperture radius times focal length times defocus, in pixels"); int h = a.get_defocus_half_extent(); vp_check(h >= 1 && h <= reach + 1, "the kernel is not larger than needed");
    unsigned k = vp_choice("phase", 4); double ox = (k & 1) * 0.75, oy = (k >> 1) * 0.75; const Image<float>& m = a.get_defocus_kernel((float)ox + 0.1f, (float)oy + 0.1f); vp_check(m.width() == 2 * h + 1 && m.height() == 2 * h + 1, "kernels span their half extent around the centre");
    double sum = 0, all = 0; for (int y = -h; y <= h; y++) for (int x = -h; x <= h; x++) sum += m(x + h, y + h); vp_check_close(sum, 1, 1e-4, "a kernel spreads light without gain or loss");
    for (int y = -reach - 1; y <= reach + 1; y++) for (int x = -reach - 1; x <= reach + 1; x++) all += cover(r, x - ox, y - oy);
    for (int y = -reach - 1; y <= reach + 1; y++) for (int x = -reach - 1; x <= reach + 1; x++) { bool in = x >= -h && x <= h && y >= -h && y <= h; vp_check_close((in ? (double)m(x + h, y + h) : 0.0) * all, cover(r, x - ox, y - oy), 1e-3, "a kernel is the disc about its sub-pixel position"); }
    vp_cover("kernel");
}
ENTRY kernel() { vp_fork(vp_bool("big")) ? kern(1, 2, 3) : kern(0.51f, 1, 2, true); }
ENTRY kernel_large() { kern(2, 4, 5); }
ENTRY bank() {   // the kernel whose position is at or just below the one asked for
    A a{Meter(4.0)}; a.build_defocus_kernel(Diopter(0.5), Meter(2e-3), Meter(2e-3), Meter(2e-3), 3); float u = vp_inf("u", -1, 2), v = vp_inf("v", -1, 2); auto idx = [](float t) { return t < 1.0f / 3 ? 0 : t < 2.0f / 3 ? 1 : 2; }; auto safe = [](float t) { for (int i = 1; i < 3; i++) vp_assume(t < i / 3.0f - 1e-4f || t > i / 3.0f + 1e-4f); }; safe(u); safe(v);
    const Image<float>&m = a.get_defocus_kernel(u, v), &n = a.get_defocus_kernel((float)idx(u) / 3 + 0.1f, (float)idx(v) / 3 + 0.1f); vp_check(&m == &n, "the nearest lower sub-pixel position, within range"); 
    double cx = 0, cy = 0; int h = a.get_defocus_half_extent(); for (int y = 0; y < m.height(); y++) for (int x = 0; x < m.width(); x++) { cx += (double)m(x, y) * (x - h); cy += (double)m(x, y) * (y - h); }
    vp_check(cx - idx(u) / 3.0 < 0.15 && idx(u) / 3.0 - cx < 0.15, "the light is centred on the position asked for"); vp_check(cy - idx(v) / 3.0 < 0.15 && idx(v) / 3.0 - cy < 0.15, "the light is centred on the position asked for (vertical)"); vp_cover("bank");
}
ENTRY threshold() {   // blur below half a pixel is no blur, whatever was set before
    A a{Meter(4.0)}; vp_check(!a.has_defocus() && vp_throws([&] { a.get_defocus_kernel(0, 0); }), "no blur to begin with"); bool before = vp_bool("before"); if (before) a.build_defocus_kernel(Diopter(0.5), Meter(2e-3), Meter(2e-3), Meter(2e-3), 2); vp_check(a.has_defocus() == before, "one pixel of blur is kept");
    float d = vp_inf("d", -0.3f, 0.3f); vp_assume(d > 0.2501f || d < -0.2501f || (d < 0.2499f && d > -0.2499f)); a.build_defocus_kernel(Diopter(d), Meter(2e-3), Meter(2e-3), Meter(2e-3), 1); bool on = d > 0.25f || d < -0.25f; vp_check(a.has_defocus() == on, "blur counts from half a pixel"); vp_check(vp_throws([&] { a.get_defocus_kernel(0, 0); }) == !on, "no kernel without blur"); vp_cover("threshold");
}
