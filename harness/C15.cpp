//! entry: size time=60 opts=--enumcap=200 asan=1
//! entry: pixel_offset time=60 opts=--enumcap=200 asan=1
//! entry: header_size time=60 opts=--enumcap=200 asan=1
//! entry: size_mono time=60 opts=--enumcap=200 asan=1
//! entry: pixel_offset_mono time=60 opts=--enumcap=200 asan=1
//! entry: header_size_mono time=60 opts=--enumcap=200 asan=1
//! entry: short_data time=60 opts=--enumcap=100 asan=1
//! entry: pixels24 mode=fp time=60
//! entry: pixels32 mode=fp time=60
//! entry: not_bmp time=60
//! entry: depth time=60
//! bound: files of up to 86 bytes; every value of every header field; pixel bytes fixed in the header entries and arbitrary for 2x2 images
#include "vp.hpp"
#include "huira/images/io/bmp_io.hpp"
using namespace huira;
#define N_ 86
static void put32(unsigned char* d, uint32_t v) { for (int i = 0; i < 4; i++) d[i] = (unsigned char)(v >> 8 * i); }
static void base(unsigned char* d, size_t n) { for (size_t i = 0; i < n; i++) d[i] = (unsigned char)(i * 37 + 11); d[0] = 'B'; d[1] = 'M'; put32(d + 10, 54); put32(d + 14, 40); put32(d + 18, 2); put32(d + 22, 2); d[26] = 1; d[27] = 0; d[28] = 24; d[29] = 0; put32(d + 30, 0); }
struct Hdr { uint32_t off, dib, comp; int32_t w, h; unsigned bpp; };
// any width and height in a file with ordinary offsets; any offset to the pixels; any size of the second header
static Hdr symbolic_header(unsigned char* d, int kind) {
    base(d, N_); Hdr h{54, 40, 0, 1, -2, vp_choice("bpp", 2) ? 32u : 24u};
    if (kind == 2) h.dib = (uint32_t)vp_bits("dib", 32);
    if (kind == 1) { h.off = (uint32_t)vp_bits("off", 32); if (vp_choice("bottom-up", 2)) h.h = 2; if (vp_fork(h.off <= N_)) h.off = (uint32_t)vp_concretize(h.off); }
    if (kind == 0) {
        h.h = (int32_t)vp_bits("h", 32); if (vp_fork(h.h >= -34 && h.h <= 34)) h.h = (int)vp_concretize((unsigned)h.h);
        if (vp_fork(h.h >= -2 && h.h <= 2)) { h.w = (int32_t)vp_bits("w", 32); if (vp_fork(h.w >= -1 && h.w <= 12)) h.w = (int)vp_concretize((unsigned)h.w); }
        else { static const int ws[] = {INT32_MIN, 0, 1, 2, 0x20000000, 0x40000000, INT32_MAX}; h.w = ws[vp_choice("wide", 7)]; }
    }
    put32(d + 10, h.off); put32(d + 14, h.dib); put32(d + 18, (uint32_t)h.w); put32(d + 22, (uint32_t)h.h); d[28] = (unsigned char)h.bpp; d[29] = 0; put32(d + 30, h.comp); return h;
}
// What the file promises, in exact arithmetic
static bool fits(const Hdr& h) { if (h.dib < 40 || h.dib > N_ - 14 || h.w <= 0 || h.h == 0 || h.h == INT32_MIN) return false; int64_t rows = h.h > 0 ? h.h : -(int64_t)h.h, stride = ((int64_t)h.w * (h.bpp / 8) + 3) / 4 * 4; if (h.off > N_ || h.w > N_ || rows > N_) return false; return (int64_t)h.off + stride * rows <= N_; }
static unsigned char at(const unsigned char* d, const Hdr& h, int x, int y, int c) { int rows = h.h > 0 ? h.h : -h.h, stride = (h.w * (int)(h.bpp / 8) + 3) / 4 * 4, sy = h.h > 0 ? rows - 1 - y : y; return d[h.off + (uint32_t)(sy * stride + x * (int)(h.bpp / 8) + c)]; }
static void header(int kind) {
    unsigned char* d = new unsigned char[N_]; Hdr h = symbolic_header(d, kind); ImageBundle<RGB> b; bool t = vp_throws([&] { b = read_image_bmp(d, N_); }); bool f = vp_fork(fits(h)); vp_check(t == !f, "exactly the files whose pixels are all there are accepted");
    if (!t && f) { int rows = h.h > 0 ? h.h : -h.h; vp_check(b.image.width() == h.w && b.image.height() == rows, "the image has the size the header gives"); h.w = (int)vp_concretize((unsigned)h.w); h.h = (int)vp_concretize((unsigned)h.h); h.off = (uint32_t)vp_concretize(h.off); rows = h.h > 0 ? h.h : -h.h;
        for (int y = 0; y < rows; y++) for (int x = 0; x < h.w; x++) { for (int c = 0; c < 3; c++) vp_check_close(b.image(x, y)[(size_t)c], at(d, h, x, y, 2 - c) / 255.0, 1e-5, "every pixel has the file's colour, rows bottom-up unless the height is negative"); if (h.bpp == 32) vp_check_close(b.alpha(x, y), at(d, h, x, y, 3) / 255.0, 1e-5, "transparency is read"); } vp_check(h.bpp == 32 || b.alpha.empty(), "files without transparency give none"); } delete[] d; vp_cover("header");
}
static void header_mono(int kind) {
    unsigned char* d = new unsigned char[N_]; Hdr h = symbolic_header(d, kind); ImageBundle<float> b; bool t = vp_throws([&] { b = read_image_bmp_mono(d, N_, false); }); bool f = vp_fork(fits(h)); vp_check(t == !f, "exactly the files whose pixels are all there are accepted");
    if (!t && f) { h.w = (int)vp_concretize((unsigned)h.w); h.h = (int)vp_concretize((unsigned)h.h); h.off = (uint32_t)vp_concretize(h.off); int rows = h.h > 0 ? h.h : -h.h; vp_check(b.image.width() == h.w && b.image.height() == rows && b.alpha.empty(), "the image has the size the header gives"); for (int y = 0; y < rows; y++) for (int x = 0; x < h.w; x++) vp_check_close(b.image(x, y), (at(d, h, x, y, 0) + at(d, h, x, y, 1) + at(d, h, x, y, 2)) / 765.0, 1e-5, "gray is the mean of the channels"); } delete[] d; vp_cover("hdrmono");
}
ENTRY short_data() { size_t n = (size_t)vp_choice("n", 80); unsigned char* d = new unsigned char[n]; unsigned char full[N_]; base(full, N_); for (size_t i = 0; i < n; i++) d[i] = full[i]; bool t = vp_throws([&] { read_image_bmp(d, n); }); vp_check(t == (n < 54 + 16), "truncated files are rejected, complete ones accepted"); delete[] d; vp_cover("short"); }
template <int BPP> static void pixels() {
    const int W = 2, H = 2, st = (W * BPP + 3) / 4 * 4; unsigned char d[54 + st * H]; base(d, sizeof d); d[28] = BPP * 8; int hh = vp_choice("top", 2) ? -H : H; put32(d + 22, (uint32_t)hh); for (size_t i = 54; i < sizeof d; i++) d[i] = (unsigned char)vp_bits("b", 8); auto b = read_image_bmp(d, sizeof d);
    for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) for (int c = 0; c < BPP; c++) { unsigned char v = d[54 + (hh > 0 ? H - 1 - y : y) * st + x * BPP + (c < 3 ? 2 - c : 3)]; float g = c < 3 ? b.image(x, y)[(size_t)c] : b.alpha(x, y); vp_check(g == (float)v / 255.0f, "every pixel value is the file's byte"); } vp_cover("pixels");
}
ENTRY pixels24() { pixels<3>(); }
ENTRY pixels32() { pixels<4>(); }
ENTRY not_bmp() { unsigned char d[N_]; base(d, N_); d[0] = (unsigned char)vp_bits("a", 8); d[1] = (unsigned char)vp_bits("b", 8); bool t = vp_throws([&] { read_image_bmp(d, N_); }); vp_check(t == !(d[0] == 'B' && d[1] == 'M'), "only data with the BMP signature is accepted"); vp_cover("notbmp"); }
ENTRY depth() { unsigned char d[N_]; base(d, N_); d[28] = (unsigned char)vp_bits("lo", 8); d[29] = (unsigned char)vp_bits("hi", 8); uint32_t c = (uint32_t)vp_bits("comp", 32); put32(d + 30, c); bool t = vp_throws([&] { read_image_bmp(d, N_); }); unsigned n = d[28] + 256u * d[29]; if (!(n == 24 || n == 32) || (c != 0 && c != 3)) vp_check(t, "unsupported depths and compressions are rejected"); if ((n == 24 || n == 32) && c == 0) vp_check(!t, "supported depths are accepted"); vp_cover("depth"); }
ENTRY size() { header(0); }
ENTRY pixel_offset() { header(1); }
ENTRY header_size() { header(2); }
ENTRY size_mono() { header_mono(0); }
ENTRY pixel_offset_mono() { header_mono(1); }
ENTRY header_size_mono() { header_mono(2); }
