//! entry: direct time=60
//! entry: direct_channels time=60
//! entry: direct_shapes time=60
//! entry: unit_kernel time=60
//! entry: fft time=60
//! entry: fft_kernel time=60
//! entry: fft_channels time=60
//! entry: integer_rejected time=60
//! bound: images of up to 3x2 pixels with any pixel values within [-10,10], kernels of up to 3x3 (small-kernel path) and 5x6, 6x5 and 1x26 (transform path); either the image or the kernel varies
//! assume: the FFT library is modelled by its definition (the discrete Fourier transform in exact arithmetic)
#include "vp.hpp"
#include "fftw3.h"
#include <cstdlib>
// The definition of the real 2-D discrete Fourier transform stands in for the FFT library
struct fftwf_plan_s { int h, w; float* r; fftwf_complex* c; bool fwd; };
extern "C" {
void* fftwf_malloc(size_t n) { return std::malloc(n); }
float* fftwf_alloc_real(size_t n) { return (float*)std::malloc(n * sizeof(float)); }
fftwf_complex* fftwf_alloc_complex(size_t n) { return (fftwf_complex*)std::malloc(n * sizeof(fftwf_complex)); }
void fftwf_free(void* p) { std::free(p); }
fftwf_plan fftwf_plan_dft_r2c_2d(int h, int w, float* r, fftwf_complex* c, unsigned) { return new fftwf_plan_s{h, w, r, c, true}; }
fftwf_plan fftwf_plan_dft_c2r_2d(int h, int w, fftwf_complex* c, float* r, unsigned) { return new fftwf_plan_s{h, w, r, c, false}; }
void fftwf_destroy_plan(fftwf_plan p) { delete p; }
void fftwf_execute(const fftwf_plan p) {
    const double tau = 6.283185307179586; int w = p->w, h = p->h, cc = w / 2 + 1;
    if (p->fwd) { for (int v = 0; v < h; v++) for (int u = 0; u < cc; u++) { double re = 0, im = 0; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { double a = tau * ((double)((u * x) % w) / w + (double)((v * y) % h) / h), t = p->r[y * w + x]; re += t * std::cos(a); im -= t * std::sin(a); } p->c[v * cc + u][0] = (float)re; p->c[v * cc + u][1] = (float)im; } return; }
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { double s = 0; for (int v = 0; v < h; v++) for (int u = 0; u < w; u++) { int uu = u < cc ? u : w - u, vv = u < cc ? v : (h - v) % h; double re = p->c[vv * cc + uu][0], im = u < cc ? p->c[vv * cc + uu][1] : -p->c[vv * cc + uu][1]; double a = tau * ((double)((u * x) % w) / w + (double)((v * y) % h) / h); s += re * std::cos(a) - im * std::sin(a); } p->r[y * w + x] = (float)s; }
}
}
#include "huira/images/image.hpp"
using namespace huira;
static Image<float> img(int w, int h) { Image<float> m(w, h); for (int i = 0; i < w * h; i++) m[(size_t)i] = vp_inf("m", -10, 10); return m; }
static Image<float> pattern(int w, int h, int seed) { Image<float> m(w, h); for (int i = 0; i < w * h; i++) m[(size_t)i] = (float)((i * 7 + seed * 3 + i * i) % 11 - 4); return m; }
static double conv(const Image<float>& m, const Image<float>& k, int x, int y) { double s = 0; int cx = k.width() / 2, cy = k.height() / 2; for (int j = 0; j < k.height(); j++) for (int i = 0; i < k.width(); i++) { int sx = x - (i - cx), sy = y - (j - cy); if (sx >= 0 && sy >= 0 && sx < m.width() && sy < m.height()) s += (double)m(sx, sy) * k(i, j); } return s; }
static void check(const Image<float>& m, const Image<float>& k, const char* l) { Image<float> r = m; r.convolve(k); vp_check(r.resolution() == m.resolution(), "convolution keeps the size"); for (int y = 0; y < m.height(); y++) for (int x = 0; x < m.width(); x++) vp_check_close(r(x, y), conv(m, k, x, y), 2e-3, l); }
ENTRY direct() { check(img(3, 2), img(3, 3), "small kernels: every pixel spreads by the kernel"); vp_cover("direct"); }
ENTRY direct_shapes() { const int s[6][2] = {{2, 3}, {1, 2}, {4, 1}, {2, 2}, {5, 5}, {1, 5}}; unsigned k = (unsigned)vp_choice("k", 6); check(img(3, 2), pattern(s[k][0], s[k][1], 1), "small kernels of any shape: every pixel spreads by the kernel"); vp_cover("shapes"); }
ENTRY unit_kernel() { Image<float> m = img(3, 2), k = img(1, 1); check(m, k, "a single-pixel kernel scales"); vp_cover("unit"); }
ENTRY direct_channels() { Image<Vec3<float>> m(2, 2), k(3, 2); Image<float> c[3], q[3]; for (int n = 0; n < 3; n++) { c[n] = img(2, 2); q[n] = pattern(3, 2, n); for (size_t i = 0; i < 4; i++) m[i][n] = c[n][i]; for (size_t i = 0; i < 6; i++) k[i][n] = q[n][i]; } m.convolve(k); for (int n = 0; n < 3; n++) for (int y = 0; y < 2; y++) for (int x = 0; x < 2; x++) vp_check_close(m(x, y)[n], conv(c[n], q[n], x, y), 2e-3, "colours are convolved channel by channel"); vp_cover("dirch"); }
ENTRY fft() { const int s[3][2] = {{5, 6}, {6, 5}, {1, 26}}; unsigned k = (unsigned)vp_choice("k", 3); check(img(2, 2), pattern(s[k][0], s[k][1], 2), "large kernels: every pixel spreads by the kernel"); vp_cover("fft"); }
ENTRY fft_kernel() { Image<float> k = pattern(6, 5, 4); const int at[6][2] = {{0, 0}, {3, 2}, {5, 4}, {2, 2}, {4, 1}, {3, 3}}; for (auto& p : at) k(p[0], p[1]) = vp_inf("k", -10, 10); check(pattern(3, 2, 5), k, "large kernels: every kernel weight reaches its pixel"); vp_cover("fftk"); }
ENTRY fft_channels() { Image<RGB> m(2, 1), k(5, 6); Image<float> c[3], q[3]; for (int n = 0; n < 3; n++) { c[n] = img(2, 1); q[n] = pattern(5, 6, n); for (size_t i = 0; i < 2; i++) m[i][(size_t)n] = c[n][i]; for (size_t i = 0; i < 30; i++) k[i][(size_t)n] = q[n][i]; } m.convolve(k); for (int n = 0; n < 3; n++) for (int x = 0; x < 2; x++) vp_check_close(m(x, 0)[(size_t)n], conv(c[n], q[n], x, 0), 2e-3, "spectra are convolved bin by bin"); vp_cover("fftch"); }
ENTRY integer_rejected() { Image<uint8_t> m(2, 2, 3), k(2, 2, 1); vp_check(vp_throws([&] { m.convolve(k); }), "integer images are not convolved"); vp_check(m(1, 1) == 3, "a rejected convolution changes nothing"); vp_cover("int"); }
