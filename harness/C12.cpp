//! entry: indexing time=60
//! entry: at_pixel mode=fp time=60
//! entry: bad_size time=60
//! entry: pixel_ops time=60
//! entry: nearest time=60
//! entry: bilinear time=60
//! entry: bilinear_channels time=60
//! entry: wrap_repeat time=60
//! entry: wrap_mirror time=60
//! entry: wrap_clamp time=60
//! entry: any_coordinate time=60
//! entry: constant8 mode=fp time=60
//! entry: integers time=60
//! bound: images of up to 3x3 pixels, every index and coordinate (NaN and infinities included where stated); sampled values within [-100,100]
#include "vp.hpp"
#include "huira/images/image.hpp"
using namespace huira;
static void dims(int& w, int& h) { w = 1 + (int)vp_choice("w", 3); h = 1 + (int)vp_choice("h", 3); }
static Image<float> img(int w, int h) { Image<float> m(w, h); for (int i = 0; i < w * h; i++) m[(size_t)i] = vp_inf("m", -100, 100); return m; }
ENTRY indexing() {
    int w, h; dims(w, h); Image<int> m(w, h, 7); vp_check(m.size() == (size_t)(w * h) && m.width() == w && m.height() == h && m.resolution() == Resolution(w, h) && !m.empty() && (bool)m, "the image has the size asked for");
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { vp_check(m(x, y) == 7, "pixels start with the fill value"); m(x, y) = 10 * y + x; } for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) vp_check(m.at(x, y) == 10 * y + x && m.data()[y * w + x] == 10 * y + x && m[(size_t)(y * w + x)] == 10 * y + x && m(Pixel(x + 0.5f, y + 0.25f)) == 10 * y + x, "every pixel has its own place, row by row");
    int x = (int)vp_bits("x", 32), y = (int)vp_bits("y", 32); bool in = vp_fork(x >= 0 && x < w && y >= 0 && y < h); const Image<int>& c = m; if (in) { x = (int)vp_concretize((unsigned)x); y = (int)vp_concretize((unsigned)y); vp_check(m.at(x, y) == 10 * y + x && c.at(x, y) == 10 * y + x, "checked access reads the pixel"); } else { vp_check(vp_throws([&] { m.at(x, y); }), "checked access rejects coordinates outside the image"); vp_check(vp_throws([&] { (void)c.at(x, y); }), "checked access rejects coordinates outside the image"); }
    uint64_t i = vp_bits("i", 64); if (vp_fork(i >= m.size())) { vp_check(vp_throws([&] { m.at((size_t)i); }), "checked access rejects indices outside the image"); vp_check(vp_throws([&] { (void)c.at((size_t)i); }), "checked access rejects indices outside the image"); }
    m.clear(); vp_check(m.empty() && !m && m.width() == 0 && m.height() == 0 && m.size() == 0, "a cleared image is empty"); vp_check(vp_throws([&] { m.at(0, 0); }), "a cleared image has no pixels"); vp_cover("index");
}
ENTRY at_pixel() {
    int w, h; dims(w, h); Image<int> m(w, h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) m(x, y) = 10 * y + x; const Image<int>& c = m; Pixel p(vp_realf_any("x"), vp_realf_any("y")); bool in = p.x >= 0 && p.x < w && p.y >= 0 && p.y < h;
    if (vp_fork(in)) { int r = -1; bool t = vp_throws([&] { r = m.at(p); }); vp_check(!t, "pixel coordinates inside the image are accepted"); int x = r % 10, y = r / 10; vp_check(p.x >= x && p.x < x + 1 && p.y >= y && p.y < y + 1, "the pixel that contains the position is read"); vp_check(c.at(p) == r, "constant access agrees"); }
    else { bool nearEdge = p.x > -1 && p.x < w && p.y > -1 && p.y < h; if (!nearEdge) { vp_check(vp_throws([&] { m.at(p); }), "pixel coordinates outside the image are rejected"); vp_check(vp_throws([&] { (void)c.at(p); }), "pixel coordinates outside the image are rejected"); } } vp_cover("atpx");
}
ENTRY bad_size() { const int v[6][2] = {{-1, -1}, {-3, 2}, {2, -3}, {INT32_MIN, 2}, {-65536, -65536}, {INT32_MIN, INT32_MIN}}; unsigned k = (unsigned)vp_choice("k", 6); int w = v[k][0], h = v[k][1]; vp_check(vp_throws([&] { Image<float> m(w, h); }) && vp_throws([&] { Image<float> m(Resolution(w, h), 1.f); }), "negative sizes are rejected"); Image<float> e(0, 5); vp_check(e.empty() && vp_throws([&] { e.at(0, 0); }), "an image without columns has no pixels"); vp_check(e.sample_bilinear(0.5f, 0.5f) == 0 && e.sample_nearest_neighbor(0.5f, 0.5f) == 0, "sampling an empty image gives zero"); vp_cover("bad"); }
ENTRY pixel_ops() {
    Image<float> a = img(2, 2), b = img(2, 2), s = a + b; for (size_t i = 0; i < 4; i++) vp_check_close(s[i], a[i] + b[i], 1e-4, "sums are pixel by pixel"); vp_check(s.resolution() == a.resolution(), "a sum keeps the size"); vp_check(vp_throws([&] { a + img(2, 1); }) && vp_throws([&] { a + img(4, 1); }), "images of different sizes do not add"); a.fill(3); for (size_t i = 0; i < 4; i++) vp_check(a[i] == 3, "fill sets every pixel");
    Image<Vec3<float>> c(2, 1); c(0, 0) = vp_vec3in<float>("c", -9, 9); c(1, 0) = vp_vec3in<float>("d", -9, 9); for (size_t k = 0; k < 3; k++) { auto g = c.get_channel(k); vp_check(g.resolution() == c.resolution() && g[0] == c[0][(int)k] && g[1] == c[1][(int)k], "a channel is extracted pixel by pixel"); } vp_check(vp_throws([&] { c.get_channel(3); }), "there are only three channels");
    Image<RGB> r(1, 1, RGB{vp_inf("p", 0, 1), vp_inf("q", 0, 1), vp_inf("r", 0, 1)}); for (size_t k = 0; k < RGB::size(); k++) vp_check(r.get_channel(k)[0] == r[0][k], "spectral channels are extracted"); vp_cover("ops");
}
ENTRY nearest() {
    int w, h; dims(w, h); Image<int> m(w, h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) m(x, y) = 10 * y + x; float u = vp_inf("u", 0, 1), v = vp_inf("v", 0, 1); vp_assume(u < 1 && v < 1); int r = vp_fork(vp_bool("clamp")) ? m.sample_nearest_neighbor<WrapMode::Clamp>(u, v) : m.sample_nearest_neighbor(u, v); double x = r % 10, y = r / 10;
    vp_check(std::fabs(u * (w - 1) - x) <= 0.5 + 1e-5 && std::fabs(v * (h - 1) - y) <= 0.5 + 1e-5, "the nearest pixel is sampled"); vp_cover("nearest");
}
static double lerp2(const Image<float>& m, double u, double v, int& x, int& y) { double px = u * (m.width() - 1), py = v * (m.height() - 1); (void)px; (void)py; double a = px - x, b = py - y; int x1 = std::min(x + 1, m.width() - 1), y1 = std::min(y + 1, m.height() - 1); return (1 - a) * (1 - b) * m(x, y) + a * (1 - b) * m(x1, y) + (1 - a) * b * m(x, y1) + a * b * m(x1, y1); }
ENTRY bilinear() {
    int w, h; dims(w, h); Image<float> m = img(w, h); float u = vp_inf("u", 0, 1), v = vp_inf("v", 0, 1); int x = (int)vp_choice("cx", (unsigned)std::max(1, w - 1)), y = (int)vp_choice("cy", (unsigned)std::max(1, h - 1)); vp_assume(u * (w - 1) >= x && v * (h - 1) >= y && u * (w - 1) <= x + 1 && v * (h - 1) <= y + 1); float r = m.sample_bilinear<WrapMode::Clamp>(u, v);
    vp_check_close(r, lerp2(m, u, v, x, y), 1e-4, "bilinear samples interpolate between the four pixels"); vp_cover("bilinear");
}
ENTRY bilinear_channels() {   // colours and spectra interpolate channel by channel like plain images
    Image<Vec3<float>> c(2, 2); Image<RGB> s(2, 2); Image<float> m[3] = {Image<float>(2, 2), Image<float>(2, 2), Image<float>(2, 2)}; for (size_t i = 0; i < 4; i++) for (int k = 0; k < 3; k++) { float v = vp_inf("m", -100, 100); c[i][k] = v; s[i][(size_t)k] = v; m[k][i] = v; }
    float u = vp_inf("u", 0, 1), v = vp_inf("v", 0, 1); auto p = c.sample_bilinear<WrapMode::Clamp>(u, v); auto q = s.sample_bilinear<WrapMode::Clamp>(u, v); for (int k = 0; k < 3; k++) { float r = m[k].sample_bilinear<WrapMode::Clamp>(u, v); vp_check_close(p[k], r, 1e-4, "colours interpolate per channel"); vp_check_close(q[(size_t)k], r, 1e-4, "spectra interpolate per channel"); } vp_cover("bilch");
}
static Image<float> ramp() { Image<float> m(3, 2); const float v[6] = {1, 5, -2, 4, 0, 9}; for (size_t i = 0; i < 6; i++) m[i] = v[i]; return m; }
ENTRY wrap_repeat() { Image<float> m = ramp(); float u = vp_inf("u", 0.001f, 0.999f), v = vp_inf("v", 0.001f, 0.999f); int k = (int)vp_choice("k", 5) - 2, l = (int)vp_choice("l", 3) - 1; float a = m.sample_bilinear(u, v); vp_check_close(m.sample_bilinear(u + k, v + l), a, 2e-3, "repeated images are periodic"); vp_check_close(a, m.sample_bilinear<WrapMode::Clamp>(u, v), 1e-4, "inside the image all modes agree"); vp_cover("repeat"); }
ENTRY wrap_mirror() { Image<float> m = ramp(); float u = vp_inf("u", 0.001f, 0.999f), v = vp_inf("v", 0.001f, 0.999f); float a = m.sample_bilinear<WrapMode::Clamp>(u, v); int k = (int)vp_choice("k", 3) - 1; vp_check_close(m.sample_bilinear<WrapMode::Mirror>(u + 2 * k, v), a, 2e-3, "mirrored images repeat every second tile"); vp_check_close(m.sample_bilinear<WrapMode::Mirror>(-u, v), a, 2e-3, "mirrored images are reflected at the left edge"); vp_check_close(m.sample_bilinear<WrapMode::Mirror>(2 - u, v), a, 2e-3, "mirrored images are reflected at the right edge"); vp_check_close(m.sample_bilinear<WrapMode::Mirror>(u, -v), a, 2e-3, "mirrored images are reflected vertically"); vp_cover("mirror"); }
ENTRY wrap_clamp() { Image<float> m = ramp(); float u = vp_inf("u", -5, 5), v = vp_inf("v", -5, 5); double cu = u < 0 ? 0 : u > 1 ? 1 : u, cv = v < 0 ? 0 : v > 1 ? 1 : v; vp_check_close(m.sample_bilinear<WrapMode::Clamp>(u, v), m.sample_bilinear<WrapMode::Clamp>((float)cu, (float)cv), 1e-4, "clamped images extend their border"); vp_check(m.sample_nearest_neighbor<WrapMode::Clamp>(u, v) == m.sample_nearest_neighbor<WrapMode::Clamp>((float)cu, (float)cv), "clamped images extend their border"); vp_cover("clamp"); }
ENTRY any_coordinate() {   // any coordinate whatsoever, NaN and infinities included: safe, and within the range of the pixels
    Image<float> m = ramp(); float u = vp_realf_any("u"), v = vp_inf("v", -3, 3); if (vp_fork(vp_bool("swap"))) std::swap(u, v); unsigned k = (unsigned)vp_choice("mode", 6); vp_assume(!(std::fabs(u) > 8 && std::isfinite(u)) || k == 1 || k == 4); vp_assume(!(std::fabs(v) > 8 && std::isfinite(v)) || k == 1 || k == 4);
    float r = k == 0 ? m.sample_bilinear(u, v) : k == 1 ? m.sample_bilinear<WrapMode::Clamp>(u, v) : k == 2 ? m.sample_bilinear<WrapMode::Mirror>(u, v) : k == 3 ? m.sample_nearest_neighbor(u, v) : k == 4 ? m.sample_nearest_neighbor<WrapMode::Clamp>(u, v) : m.sample_nearest_neighbor<WrapMode::Mirror>(u, v);
    vp_check(r >= -2.001f && r <= 9.001f, "samples stay within the range of the pixels"); vp_cover("any");
}
ENTRY constant8() {   // rounding: a constant image samples to its constant
    const uint8_t cs[3] = {1, 130, 255}; uint8_t c = cs[vp_choice("c", 3)]; Image<uint8_t> m(2, 2, c); float u = vp_realf_any("u"), v = 0; vp_assume(u >= 0 && u <= 1); vp_check(m.sample_bilinear<WrapMode::Clamp>(u, v) == c, "a constant image samples to its constant"); vp_cover("const8");
}
ENTRY integers() { int p = (int)vp_choice("p", 4) * 6, q = (int)vp_choice("q", 4) * 6; Image<uint8_t> m(2, 1); m[0] = (uint8_t)p; m[1] = (uint8_t)q; float u = vp_inf("u", 0, 1); double e = p + (q - p) * (double)u; int r = m.sample_bilinear<WrapMode::Clamp>(u, 0.5f); vp_check(std::fabs(r - e) <= 0.501, "integer samples are rounded to the nearest value"); vp_cover("ints"); }
