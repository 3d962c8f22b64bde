//! entry: png_write time=80 opts=--symround,--bv2real=16
//! entry: png_foreign time=60 opts=--bv2real=16
//! entry: png_faults time=60
//! entry: tiff_write time=80 opts=--symround,--bv2real=16
//! entry: tiff_layout time=60 opts=--bv2real=32
//! entry: tiff_colour time=60 opts=--bv2real=16
//! entry: tiff_turned time=60 opts=--bv2real=8
//! entry: tiff_faults time=60
//! entry: jpeg time=60 opts=--symround,--bv2real=16
//! libs: -lpng -ltiff -lturbojpeg
//! bound: images of up to 3x3 pixels; every value of the pixels that vary (the others are told apart by position), of colour, grey and alpha; 8 and 16 bits written, 1 to 32 bits and single precision read; strips and tiles, planes together and apart, every orientation; a fault at any call that can fail
//! assume: libpng, libtiff and TurboJPEG are replaced by models of their documented behaviour without compression; an error inside libpng is one raised before the first pixel
#include "codec.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/util/paths.hpp"
#include "huira/images/io/io_util.hpp"
#include "huira/images/io/png_io.hpp"
#include "huira/images/io/tiff_io.hpp"
#include "huira/images/io/jpeg_io.hpp"
using namespace huira;
static const float NAN_ = std::numeric_limits<float>::quiet_NaN();
static double cl(double v) { return v > 0 ? v > 1 ? 1 : v : 0; }
static bool near(double a, double b, double tol) { return a - b <= tol && b - a <= tol; }
static double most(int bits) { return bits == 32 ? 4294967295.0 : (double)((1L << bits) - 1); }
static void open_none() { vp_check(cf::opened == 0 && pn::opened == 0 && tf::opened == 0 && tj::opened == 0 && tj::buffers == 0, "nothing stays open"); }
static size_t put(const char* n, const cf::Bytes& b) { size_t i = cf::file(n); cf::disk[i].data = b; return i; }
// an image of 2x2 pixels with arbitrary values in two of them
struct Sample { float a, b, c; bool hole; };
static Sample sample() { Sample s; s.a = vp_inf("a", -0.5f, 1.5f); s.b = vp_inf("b", 0.125f, 0.875f); s.c = vp_inf("c", 0.125f, 0.875f); s.hole = vp_choice("undefined", 2); return s; }
static ImageBundle<RGB> colour(const Sample& s) { Image<RGB> im(2, 2); im(0, 0) = RGB{s.a, 0.25f, 1.f}; im(1, 0) = RGB{s.hole ? NAN_ : 0.f, 0.5f, s.b}; im(0, 1) = RGB{1.f, 0.75f, 0.f}; im(1, 1) = RGB{0.125f, s.c, 2.f}; return ImageBundle<RGB>(std::move(im)); }
static ImageBundle<float> grey(const Sample& s) { Image<float> im(2, 2); im(0, 0) = s.a; im(1, 0) = s.b; im(0, 1) = s.hole ? NAN_ : 1.f; im(1, 1) = s.c; return ImageBundle<float>(std::move(im)); }
template <class P> static void mask(ImageBundle<P>& b, const Sample& s, int alpha) { if (alpha == 1) { b.alpha = Image<float>(2, 2, 1.f); b.alpha(1, 0) = s.b; b.alpha(0, 1) = 0.f; } if (alpha == 2) b.alpha = Image<float>(1, 2, 0.5f); }
static void same(const ImageBundle<RGB>& r, const ImageBundle<RGB>& w, double tol) { vp_check(r.image.width() == 2 && r.image.height() == 2, "images come back in full"); for (int y = 0; y < 2; y++) for (int x = 0; x < 2; x++) for (int c = 0; c < 3; c++) vp_check(near(r.image(x, y)[(size_t)c], cl(w.image(x, y)[(size_t)c]), tol), "colours come back to the nearest step"); }
static void same(const ImageBundle<RGB>& r, const ImageBundle<float>& w, double tol) { vp_check(r.image.width() == 2 && r.image.height() == 2, "images come back in full"); for (int y = 0; y < 2; y++) for (int x = 0; x < 2; x++) for (int c = 0; c < 3; c++) vp_check(near(r.image(x, y)[(size_t)c], cl(w.image(x, y)), tol), "grey levels come back to the nearest step"); }
static void same_mono(const ImageBundle<float>& r, const ImageBundle<RGB>& w, double tol) { for (int y = 0; y < 2; y++) for (int x = 0; x < 2; x++) vp_check(near(3.0 * (double)r.image(x, y), cl(w.image(x, y)[0]) + cl(w.image(x, y)[1]) + cl(w.image(x, y)[2]), 3 * tol), "the grey level is the mean of the colours"); }
static void same_mono(const ImageBundle<float>& r, const ImageBundle<float>& w, double tol) { for (int y = 0; y < 2; y++) for (int x = 0; x < 2; x++) vp_check(near(r.image(x, y), cl(w.image(x, y)), tol), "grey levels come back to the nearest step"); }
template <class P> static void same_alpha(const Image<float>& a, const ImageBundle<P>& w, int alpha, double tol) { vp_check(a.size() == (alpha == 1 ? 4u : 0u), "transparency comes back if there is any that fits"); if (alpha == 1 && a.size() == 4) for (size_t i = 0; i < 4; i++) vp_check(near(a[i], w.alpha[i], tol), "transparency comes back to the nearest step"); }
template <class P> static void png(ImageBundle<P> w, const Sample& s, int alpha) {
    mask(w, s, alpha); w.bit_depth = vp_choice("deep", 2) ? 16 : 8; int cs = (int)vp_choice("space", 5); w.color_space = cs == 0 ? ColorSpaceHint::sRGB : cs == 1 ? ColorSpaceHint::Linear : cs == 2 ? ColorSpaceHint::Unknown : ColorSpaceHint::Gamma; if (cs == 3) w.gamma_value = vp_inf("gamma", 1.05f, 2.1f); if (cs == 4) w.gamma_value = vp_inf("gamma", 2.4f, 4.f);
    write_image_png("/im.png", w); open_none(); auto& f = pn::files[0]; vp_check(f.depth == w.bit_depth && f.w == 2 && f.h == 2 && pn::channels(f.type) % 2 == (alpha == 1 ? 0 : 1), "the file is of the size and depth asked for"); double tol = 0.5001 / most(w.bit_depth) + 2e-7; auto r = read_image_png("/im.png"); same(r, w, tol); same_alpha(r.alpha, w, alpha, tol); auto m = read_image_png_mono("/im.png"); same_mono(m, w, tol); same_alpha(m.alpha, w, alpha, tol); vp_check(read_image_png("/im.png", false).alpha.size() == 0 && read_image_png_mono("/im.png", false).alpha.size() == 0, "transparency is left out on request"); vp_check(r.bit_depth == w.bit_depth && m.bit_depth == w.bit_depth, "the depth comes back");
    if (cs != 2) vp_check(r.color_space == w.color_space && m.color_space == w.color_space, "the colour space comes back"); if (cs > 2) vp_check(near(r.gamma_value, w.gamma_value, 1e-4) && near(m.gamma_value, w.gamma_value, 1e-4), "the gamma comes back"); open_none(); vp_cover("png");
}
ENTRY png_write() { Sample s = sample(); int alpha = (int)vp_choice("alpha", 3); if (vp_choice("grey", 2)) png(grey(s), s, alpha); else png(colour(s), s, alpha); }
// files of other programs
ENTRY png_foreign() {
    int k = (int)vp_choice("kind", 11); pn::File f; f.w = 3; f.h = 2; f.depth = (int[]){1, 2, 4, 8, 16, 8, 16, 8, 4, 8, 16}[k]; f.type = k < 5 ? PNG_COLOR_TYPE_GRAY : k < 7 ? PNG_COLOR_TYPE_GRAY_ALPHA : k < 9 ? PNG_COLOR_TYPE_PALETTE : k == 9 ? PNG_COLOR_TYPE_RGB_ALPHA : PNG_COLOR_TYPE_RGB; int clear = k < 5 || k == 10 ? (int)vp_choice("clear", 2) : k == 8; if (clear && f.type != PNG_COLOR_TYPE_PALETTE) f.key = f.depth == 1 ? 1 : 3; if (clear && f.type == PNG_COLOR_TYPE_PALETTE) f.alpha = {0, 100};
    unsigned v = (unsigned)vp_bits("v", f.depth > 8 ? 16 : 8), top = (1u << f.depth) - 1; size_t n = (size_t)pn::channels(f.type); bool low = f.depth < 8; f.interlace = (int)vp_choice("interlaced", 2); for (unsigned i = 0; i < 12; i++) f.palette.push_back(i == 4 ? v & 255 : 20 * i); for (unsigned y = 0; y < 2; y++) { f.rows.emplace_back(); for (unsigned i = 0; i < 3 * n; i++) f.rows[y].push_back(f.type == PNG_COLOR_TYPE_PALETTE ? (y * 3 + i) % 4 : low ? (y * 3 + i) % (top + 1) : (y * 5 + i * 3) * (top / 255)); } if (f.type != PNG_COLOR_TYPE_PALETTE && !low) f.rows[1][n + n - 1] = v;
    int hint = (int)vp_choice("hint", 6); f.srgb = hint == 1; f.icc = hint == 5; if (hint > 1 && hint < 5) f.gama = hint == 2 ? 1.0 : hint == 3 ? 0.45455 : 0.55555; pn::files.push_back(f); put("/im.png", pn::bytes(0)); auto r = read_image_png("/im.png"); auto m = read_image_png_mono("/im.png"); open_none(); vp_check(r.image.width() == 3 && r.image.height() == 2 && m.image.width() == 3 && m.image.height() == 2, "images come back in full"); if (r.image.size() != 6 || m.image.size() != 6) return;
    bool has = clear || n % 2 == 0; vp_check(r.alpha.size() == (has ? 6u : 0u) && m.alpha.size() == (has ? 6u : 0u), "transparency is found if there is any"); auto ex = hint == 2 ? ColorSpaceHint::Linear : hint == 4 ? ColorSpaceHint::Gamma : hint == 5 ? ColorSpaceHint::Unknown : ColorSpaceHint::sRGB; vp_check(r.color_space == ex && m.color_space == ex, "the colour space is the one the file states"); if (hint == 4) vp_check(near(r.gamma_value, 1.80002, 1e-4), "the gamma is the one the file states");
    for (unsigned y = 0; y < 2; y++) for (unsigned x = 0; x < 3; x++) { double c[3], a = 1, t = low ? top : f.depth == 8 ? 255 : 65535; auto& w = f.rows[y]; if (f.type == PNG_COLOR_TYPE_PALETTE) { unsigned e = w[x]; for (unsigned i = 0; i < 3; i++) c[i] = f.palette[e * 3 + i] / 255.0; if (clear) a = e < 2 ? f.alpha[e] / 255.0 : 1; } else { bool key = true; for (unsigned i = 0; i < 3; i++) { unsigned q = w[x * n + (n > 2 ? i : 0)]; c[i] = q / t; key = key && q == (unsigned)f.key; } if (n % 2 == 0) a = w[x * n + n - 1] / t; else if (clear && key) a = 0; } int X = (int)x, Y = (int)y; for (size_t i = 0; i < 3; i++) vp_check(near(r.image(X, Y)[i], c[i], 1e-6), "every pixel is in its place"); vp_check(near(3.0 * (double)m.image(X, Y), c[0] + c[1] + c[2], 3e-6), "the grey level is the mean of the colours"); if (has && r.alpha.size() == 6) vp_check(near(r.alpha(X, Y), a, 1e-6) && near(m.alpha(X, Y), a, 1e-6), "transparency is in its place"); }
    vp_cover("foreign");
}
ENTRY png_faults() {
    int k = (int)vp_choice("kind", 11); Image<RGB> im(2, 1); ImageBundle<RGB> b(std::move(im)); pn::File f; f.w = f.h = 1; f.rows = {{1, 2, 3}}; pn::files.push_back(f); put("/ok.png", pn::bytes(0)); auto wr = [&] { write_image_png("/im.png", b); }; auto rd = [] { read_image_png("/ok.png"); };
    if (k < 3) { pn::fault = k + 1; vp_check(vp_throws(wr), "a fault while writing is reported"); } else if (k < 6) { pn::fault = k - 2; vp_check(vp_throws(rd), "a fault while reading is reported"); } else if (k == 6) { cf::no_open = true; vp_check(vp_throws(wr) && vp_throws(rd), "files that cannot be opened are reported"); } else if (k == 7) { int d = (int)vp_int("depth", -40, 40); vp_assume(d != 8 && d != 16); b.bit_depth = d; vp_check(vp_throws(wr), "other depths are refused"); } else if (k == 8) { b.image = Image<RGB>(); vp_check(vp_throws(wr) && cf::disk.size() == 1, "empty images are refused"); } else if (k == 9) { auto& d = cf::disk[0].data; int n = (int)vp_choice("length", 8); d.resize((size_t)n); vp_check(vp_throws(rd), "short files are refused"); } else { auto& d = cf::disk[0].data; int i = (int)vp_choice("at", 8); unsigned char c = (unsigned char)vp_bits("byte", 8); vp_assume(c != d[(size_t)i]); d[(size_t)i] = c; vp_check(vp_throws(rd), "files of another kind are refused"); }
    open_none(); vp_cover("faults");
}
template <class P> static void tiff_(ImageBundle<P> w, const Sample& s, int alpha) {
    mask(w, s, alpha); w.bit_depth = vp_choice("deep", 2) ? 16 : 8; int t = (int)vp_choice("texts", 4); std::string d = t & 1 ? "what" : "", a = t & 2 ? "who" : ""; write_image_tiff("/im.tif", w, d, a); open_none(); auto& f = tf::files[0]; vp_check(f.bps == w.bit_depth && f.w == 2 && f.h == 2 && f.format == SAMPLEFORMAT_UINT && f.spp % 2 == (alpha == 1 ? 0 : 1) && f.rows == 2, "the file is of the size and depth asked for"); vp_check(f.description == d && f.artist == a, "the texts are written");
    double tol = 0.5001 / most(w.bit_depth) + 2e-7; auto r = read_image_tiff_rgb("/im.tif"); same(r, w, tol); same_alpha(r.alpha, w, alpha, tol); auto m = read_image_tiff_mono("/im.tif"); same_mono(m, w, tol); same_alpha(m.alpha, w, alpha, tol); vp_check(read_image_tiff_rgb("/im.tif", false).alpha.size() == 0 && read_image_tiff_mono("/im.tif", false).alpha.size() == 0, "transparency is left out on request"); vp_check(r.bit_depth == w.bit_depth && m.bit_depth == w.bit_depth, "the depth comes back"); open_none(); vp_cover("tiff");
}
ENTRY tiff_write() { Sample s = sample(); int alpha = (int)vp_choice("alpha", 3); if (vp_choice("grey", 2)) tiff_(grey(s), s, alpha); else tiff_(colour(s), s, alpha); }
// a foreign file: every sample told apart by its place, one arbitrary
static float where(const tf::File& f, unsigned i) { return f.format == SAMPLEFORMAT_IEEEFP ? (float)i - 3.5f : (float)(i + 1); }
static void raw(tf::File& f, unsigned vary, uint32_t bits, float real) { size_t planes = f.planar == PLANARCONFIG_CONTIG ? 1 : (size_t)f.spp, n = (size_t)f.bps / 8; f.raw.resize((size_t)f.w * f.h * (size_t)f.spp * n); for (unsigned i = 0; i < f.w * f.h * (unsigned)f.spp; i++) { unsigned c = i % (unsigned)f.spp, p = i / (unsigned)f.spp; size_t at = planes == 1 ? i : (size_t)c * f.w * f.h + p; unsigned char* q = &f.raw[at * n]; if (f.format == SAMPLEFORMAT_IEEEFP) { float v = i == vary ? real : where(f, i); std::memcpy(q, &v, 4); } else { uint32_t v = i == vary ? bits : (uint32_t)where(f, i); if (n == 1) *q = (unsigned char)v; else if (n == 2) { uint16_t u = (uint16_t)v; std::memcpy(q, &u, 2); } else std::memcpy(q, &v, 4); } } }
static double value(const tf::File& f, unsigned i, unsigned vary, uint32_t bits, float real) { if (f.format == SAMPLEFORMAT_IEEEFP) return i == vary ? (double)real : (double)where(f, i); return (i == vary ? (double)(f.bps == 8 ? bits & 255 : f.bps == 16 ? bits & 65535 : bits) : (double)where(f, i)) / most(f.bps); }
ENTRY tiff_layout() {
    tf::File f; f.w = 3; f.h = 3; int fmt = (int)vp_choice("format", 4); f.bps = (int[]){8, 16, 32, 32}[fmt]; if (fmt == 3) f.format = SAMPLEFORMAT_IEEEFP; f.spp = 1 + (int)vp_choice("samples", 4); f.photo = f.spp < 3 ? PHOTOMETRIC_MINISBLACK : PHOTOMETRIC_RGB; if (f.spp % 2 == 0) f.extra = {(uint16_t)EXTRASAMPLE_UNASSALPHA}; if (vp_choice("planes", 2)) f.planar = PLANARCONFIG_SEPARATE; if (vp_choice("tiles", 2)) { f.tw = 2; f.th = 1 + (int)vp_choice("tall", 2); }
    unsigned vary = 4 * (unsigned)f.spp + (vp_choice("last", 2) ? (unsigned)f.spp - 1 : 0u); uint32_t b = fmt == 3 ? 0 : (uint32_t)vp_bits("v", (unsigned)f.bps); float r0 = fmt == 3 ? vp_inf("v", -1e3f, 1e3f) : 0; raw(f, vary, b, r0); tf::files.push_back(f); put("/im.tif", tf::bytes(0)); auto r = read_image_tiff_rgb("/im.tif"); auto m = read_image_tiff_mono("/im.tif"); open_none(); bool has = f.spp % 2 == 0; vp_check(r.image.size() == 9 && m.image.size() == 9 && r.image.width() == 3, "images come back in full"); vp_check(r.alpha.size() == (has ? 9u : 0u) && m.alpha.size() == r.alpha.size(), "transparency is found if there is any"); vp_check(r.color_space == (fmt == 3 ? ColorSpaceHint::Linear : ColorSpaceHint::sRGB) && m.color_space == r.color_space, "physical values are marked linear");
    if (r.image.size() == 9 && m.image.size() == 9) for (unsigned p = 0; p < 9; p++) { double c[4]; unsigned n = (unsigned)f.spp; for (unsigned i = 0; i < 3; i++) c[i] = value(f, p * n + (n > 2 ? i : 0), vary, b, r0); c[3] = value(f, p * n + n - 1, vary, b, r0); double tol = fmt == 3 ? 2e-3 : 1e-6; for (size_t i = 0; i < 3; i++) vp_check(near(r.image[p][i], c[i], tol * 1e-3 + 1e-6), "every pixel is in its place"); vp_check(near(3.0 * (double)m.image[p], c[0] + c[1] + c[2], 3 * tol), "the grey level is the mean of the colours"); if (has && r.alpha.size() == 9) vp_check(near(r.alpha[p], c[3], tol * 1e-3 + 1e-6) && near(m.alpha[p], c[3], tol * 1e-3 + 1e-6), "transparency is in its place"); }
    vp_cover("layout");
}
// black and white swapped, palettes, luminance and colour difference
ENTRY tiff_colour() {
    int k = (int)vp_choice("kind", 4); tf::File f; f.w = 2; f.h = 2; unsigned v = (unsigned)vp_bits("v", 8); if (k == 0) { f.photo = PHOTOMETRIC_MINISWHITE; bool a = vp_choice("alpha", 2); if (a) { f.spp = 2; f.extra = {(uint16_t)EXTRASAMPLE_UNASSALPHA}; } raw(f, a ? 2u : 1u, v, 0); tf::files.push_back(f); put("/im.tif", tf::bytes(0)); auto r = read_image_tiff_rgb("/im.tif"); auto m = read_image_tiff_mono("/im.tif"); vp_check(near(r.image[1][0], 1 - v / 255.0, 1e-6) && near(r.image[1][2], 1 - v / 255.0, 1e-6) && near(m.image[1], 1 - v / 255.0, 1e-6), "images that count from white are turned round"); if (a && r.alpha.size() == 4) vp_check(near(r.alpha[1], 4 / 255.0, 1e-6) && near(r.alpha[0], 2 / 255.0, 1e-6), "transparency is not turned round"); }
    else { f.photo = k == 1 ? PHOTOMETRIC_PALETTE : PHOTOMETRIC_YCBCR; if (k > 1) { f.spp = 3; if (k == 3) f.line = 3; } f.raw.resize(12, 0x33); for (unsigned i = 0; i < 4; i++) f.rgba.push_back((i == 2 ? v : 10 * i) | (20 * i + 1) << 8 | (30 * i + 2) << 16 | 255u << 24); tf::files.push_back(f); put("/im.tif", tf::bytes(0)); auto r = read_image_tiff_rgb("/im.tif"); auto m = read_image_tiff_mono("/im.tif"); vp_check(r.image.size() == 4 && m.image.size() == 4, "images come back in full"); if (r.image.size() == 4 && m.image.size() == 4) for (unsigned i = 0; i < 4; i++) { double c[3] = {(i == 2 ? v : 10 * i) / 255.0, (20 * i + 1) / 255.0, (30 * i + 2) / 255.0}; for (size_t j = 0; j < 3; j++) vp_check(near(r.image[i][j], c[j], 1e-6), "colours coded another way are decoded"); vp_check(near(3.0 * (double)m.image[i], c[0] + c[1] + c[2], 3e-6), "the grey level is the mean of the colours"); } for (size_t i = 0; i < r.alpha.size(); i++) vp_check(r.alpha[i] == 1, "nothing becomes transparent"); }
    open_none(); vp_cover("colour");
}
// the pixel at the top left of the picture is not the first of the file
ENTRY tiff_turned() {
    tf::File f; f.w = 3; f.h = 2; int o = f.orient = 1 + (int)vp_choice("orientation", 8); f.spp = vp_choice("colour", 2) ? 4 : 1; if (f.spp == 4) { f.photo = PHOTOMETRIC_RGB; f.extra = {(uint16_t)EXTRASAMPLE_UNASSALPHA}; } if (vp_choice("tiles", 2)) f.tw = f.th = 2; unsigned v = (unsigned)vp_bits("v", 8); raw(f, 2 * (unsigned)f.spp, v, 0); tf::files.push_back(f); put("/im.tif", tf::bytes(0)); auto r = read_image_tiff_rgb("/im.tif"); auto m = read_image_tiff_mono("/im.tif"); bool tr = o > 4; vp_check(r.image.width() == (tr ? 2 : 3) && r.image.height() == (tr ? 3 : 2), "turned images have their sides swapped"); if (r.image.size() != 6 || m.image.size() != 6 || r.image.width() != (tr ? 2 : 3)) return;
    for (unsigned y = 0; y < 2; y++) for (unsigned x = 0; x < 3; x++) { int R = (int)y, C = (int)x; bool fr = o == 3 || o == 4 || o == 7 || o == 8, fc = o == 2 || o == 3 || o == 6 || o == 7; int X, Y; if (!tr) { X = fc ? 2 - C : C; Y = fr ? 1 - R : R; } else { X = (o == 6 || o == 7) ? 1 - R : R; Y = (o == 7 || o == 8) ? 2 - C : C; } unsigned i = (y * 3 + x) * (unsigned)f.spp; vp_check(near(r.image(X, Y)[0], value(f, i, 2u * (unsigned)f.spp, v, 0), 1e-6), "pixels are where the file's orientation puts them"); if (f.spp == 1) vp_check(near(m.image(X, Y), value(f, i, 2, v, 0), 1e-6), "pixels are where the file's orientation puts them"); else if (r.alpha.size() == 6) vp_check(near(r.alpha(X, Y), value(f, i + 3, 999, v, 0), 1e-6), "transparency turns with the image"); }
    open_none(); vp_cover("turned");
}
ENTRY tiff_faults() {
    int k = (int)vp_choice("kind", 8); Image<RGB> im(2, 2); ImageBundle<RGB> b(std::move(im)); ImageBundle<float> g(Image<float>(2, 2)); bool mono = vp_choice("grey", 2); auto wr = [&] { if (mono) write_image_tiff("/im.tif", g); else write_image_tiff("/im.tif", b); }; auto rd = [&] { if (mono) read_image_tiff_mono("/ok.tif"); else read_image_tiff_rgb("/ok.tif"); };
    tf::File f; f.w = f.h = 3; if (k == 0 || k == 1) { if (vp_choice("tiles", 2)) f.tw = f.th = 2; if (vp_choice("planes", 2)) { f.planar = PLANARCONFIG_SEPARATE; f.spp = 3; f.photo = PHOTOMETRIC_RGB; } if (k == 1) { f.photo = PHOTOMETRIC_PALETTE; f.rgba.resize(9); f.spp = 1; } } if (k == 2) { int j = (int)vp_choice("odd", 6); if (j == 0) { int s = (int)vp_int("bits", 1, 64); vp_assume(s != 8 && s != 16 && s != 32); f.bps = (int)vp_concretize((unsigned)s); f.line = 64; } else if (j == 1) f.format = SAMPLEFORMAT_INT; else if (j == 2) { f.format = SAMPLEFORMAT_IEEEFP; f.bps = 64; } else if (j == 3) { f.spp = 4; f.photo = PHOTOMETRIC_SEPARATED; } else if (j == 4) f.spp = 2; else f.format = SAMPLEFORMAT_VOID; }
    if (f.line) f.raw.resize(64 * 3); else raw(f, 99, 0, 0); tf::files.push_back(f); put("/ok.tif", tf::bytes(0));
    if (k < 2) { rd(); int n = tf::calls; tf::calls = 0; tf::fault = (int)vp_choice("fault", 12); vp_assume(tf::fault < n); vp_check(vp_throws(rd), "a fault while reading is reported"); } else if (k == 2) vp_check(vp_throws(rd), "kinds of image that cannot be shown are refused"); else if (k == 3) { tf::refuse = true; vp_check(vp_throws(rd) && vp_throws(wr), "files that cannot be opened are reported"); } else if (k == 4) { int d = (int)vp_int("depth", -40, 40); vp_assume(d != 8 && d != 16); b.bit_depth = g.bit_depth = d; vp_check(vp_throws(wr), "other depths are refused"); } else if (k == 5) { b.image = Image<RGB>(); g.image = Image<float>(); vp_check(vp_throws(wr) && tf::files.size() == 1, "empty images are refused"); } else if (k == 6) { wr(); int n = tf::calls; tf::calls = 0; tf::fault = (int)vp_choice("fault", 6); vp_assume(tf::fault < n); vp_check(vp_throws(wr), "a fault while writing is reported"); } else { cf::disk[0].data[(size_t)vp_choice("at", 3)] ^= (unsigned char)(1 + vp_choice("bit", 2)); vp_check(vp_throws(rd), "files of another kind are refused"); }
    open_none(); vp_cover("faults");
}
ENTRY jpeg() {
    int k = (int)vp_choice("kind", 8); Sample s = sample(); int q = (int)vp_int("quality", -5, 120); if (k < 2) vp_assume(q >= 1 && q <= 100); double tol = 0.5001 / 255 + 2e-7; auto w = colour(s); auto g = grey(s); auto wr = [&] { write_image_jpeg("/im.jpg", w, k == 7 ? q : 90); };
    if (k == 0) { write_image_jpeg("/im.jpg", w, q); same(read_image_jpeg("/im.jpg"), w, tol); vp_check(tj::files[0].quality == q, "the quality is the one asked for"); } else if (k == 1) { write_image_jpeg("/im.jpg", g, q); same(read_image_jpeg("/im.jpg"), g, tol); vp_check(tj::files[0].quality == q, "the quality is the one asked for"); } else if (k == 2) { tj::File f; f.w = 2; f.h = 2; f.gray = true; unsigned char v = (unsigned char)vp_bits("v", 8); for (unsigned i = 0; i < 12; i++) f.px.push_back(i / 3 == 1 ? v : (unsigned char)(i / 3 * 40)); tj::files.push_back(f); put("/im.jpg", tj::bytes(0)); auto m = read_image_jpeg_mono("/im.jpg"); auto r = read_image_jpeg("/im.jpg"); vp_check(m.image.size() == 4 && m.image.width() == 2, "images come back in full"); for (int i = 0; i < 4; i++) { double e = i == 1 ? v / 255.0 : i * 40 / 255.0; vp_check(near(m.image(i % 2, i / 2), e, 1e-6) && near(r.image(i % 2, i / 2)[1], e, 1e-6), "every pixel is in its place"); } }
    else if (k == 3) { wr(); int f = (int)vp_choice("fault", 3) + 1; tj::fault = f; vp_check(vp_throws([&] { read_image_jpeg("/im.jpg"); }) && vp_throws([&] { read_image_jpeg_mono("/im.jpg"); }), "a fault while reading is reported"); } else if (k == 4) { tj::fault = vp_choice("fault", 2) ? 1 : 3; vp_check(vp_throws(wr), "a fault while writing is reported"); } else if (k == 5) { if (vp_choice("fault", 2)) cf::no_open = true; else cf::short_write = true; vp_check(vp_throws(wr), "a fault while writing is reported"); } else if (k == 6) { w.image = Image<RGB>(); vp_check(vp_throws(wr), "empty images are refused"); } else vp_check(vp_throws(wr) == (q < 1 || q > 100), "only qualities from 1 to 100 are taken");
    open_none(); vp_cover("jpeg");
}
