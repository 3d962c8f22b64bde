//! entry: rgbe time=60 opts=--bv2real=8,--enumcap=300 asan=1
//! entry: flat time=60 opts=--bv2real=8,--enumcap=300 asan=1
//! entry: rle_first time=60 opts=--bv2real=8,--enumcap=300 asan=1
//! entry: rle_last time=60 opts=--bv2real=8,--enumcap=300 asan=1
//! entry: scanline_kind time=60 opts=--bv2real=8,--enumcap=300 asan=1
//! entry: truncated time=60 opts=--bv2real=8,--enumcap=200 asan=1
//! entry: orientation time=60 opts=--bv2real=8,--enumcap=300 asan=1
//! entry: header time=60 opts=--bv2real=8,--enumcap=300 asan=1
//! entry: resolution_line time=60 opts=--bv2real=8,--enumcap=300 asan=1
//! entry: magic time=60 opts=--bv2real=8 asan=1
//! bound: images of up to 3x2 pixels, and 8 to 10 x 1 or 2 for run-length encoded lines; pixel bytes, two packet headers, every truncation and one character of the resolution line arbitrary
//! assume: the standard string stream is modelled (parsing of integers and words)
#include "vp.hpp"
#include "huira/images/io/hdr_io.hpp"
using namespace huira;
using B = std::vector<unsigned char>;
static B text(const char* s) { B d; for (; *s; s++) d.push_back((unsigned char)*s); return d; }
static B head(const char* y, int h, const char* x, int w) { B d = text("#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n"); for (auto c : text(y)) d.push_back(c); d.push_back(' '); if (h > 9) d.push_back((unsigned char)('0' + h / 10)); d.push_back((unsigned char)('0' + h % 10)); d.push_back(' '); for (auto c : text(x)) d.push_back(c); d.push_back(' '); if (w > 9) d.push_back((unsigned char)('0' + w / 10)); d.push_back((unsigned char)('0' + w % 10)); d.push_back('\n'); return d; }
// reads a heap copy of exact size, so that any read outside is seen
static bool load(const B& d, ImageBundle<RGB>& b) { unsigned char* p = new unsigned char[d.size()]; for (size_t i = 0; i < d.size(); i++) p[i] = d[i]; bool t = vp_throws([&] { b = read_image_hdr(p, d.size()); }); delete[] p; return !t; }
static void pixel(const RGB& c, const unsigned char* q) { unsigned e = (unsigned)vp_concretize(q[3]); for (size_t k = 0; k < 3; k++) if (e == 0) vp_check(c[k] == 0.f, "exponent zero is black"); else vp_check_close(std::ldexp((double)c[k], 136 - (int)e), (double)q[k], 1e-5, "a pixel is mantissa times two to the exponent"); }
ENTRY rgbe() { B d = head("-Y", 1, "+X", 1); size_t m = d.size(); for (int i = 0; i < 4; i++) d.push_back((unsigned char)vp_bits("b", 8)); ImageBundle<RGB> b; vp_check(load(d, b) && b.image.width() == 1 && b.image.height() == 1 && b.alpha.empty(), "accepted"); pixel(b.image(0, 0), &d[m]); vp_cover("rgbe"); }
ENTRY flat() { B d = head("-Y", 2, "+X", 3); size_t m = d.size(); for (int i = 0; i < 24; i++) d.push_back(i % 4 == 3 ? (unsigned char)(120 + i) : (unsigned char)vp_bits("b", 8)); ImageBundle<RGB> b; vp_check(load(d, b) && b.image.width() == 3 && b.image.height() == 2, "flat files are accepted"); vp_check(b.color_space == ColorSpaceHint::Linear, "pixels are marked as linear light"); for (int i = 0; i < 6; i++) pixel(b.image[(size_t)i], &d[m + 4 * (size_t)i]); ImageBundle<float> g = read_image_hdr_mono(d.data(), d.size()); vp_check(g.color_space == ColorSpaceHint::Linear, "pixels are marked as linear light"); for (size_t i = 0; i < 6; i++) vp_check_close(g.image[i], (b.image[i][0] + b.image[i][1] + b.image[i][2]) / 3, 1e-5, "gray is the mean of the channels"); vp_cover("flat"); }
// An independent decoder of scanlines
static bool decode(const B& d, size_t p, int w, int h, std::vector<unsigned char>& out) {
    for (int y = 0; y < h; y++) {
        if (p + 4 > d.size()) return false; size_t row = out.size(); out.resize(row + 4 * (size_t)w);
        if (!(w >= 8 && vp_fork(d[p] == 2 && d[p + 1] == 2 && d[p + 2] == w / 256 && d[p + 3] == w % 256))) { for (size_t i = 0; i < 4 * (size_t)w; i++) { if (p >= d.size()) return false; out[row + i] = d[p++]; } continue; }
        p += 4; for (size_t c = 0; c < 4; c++) { int x = 0; while (x < w) { if (p >= d.size()) return false; unsigned n = d[p++]; bool run = vp_fork(n > 128); int k = (int)vp_concretize(run ? std::min(n - 128u, 12u) : std::min(n, 12u)); if (run && p >= d.size()) return false; for (int i = 0; i < k && x < w; i++, x++) { if (!run && p >= d.size()) return false; out[row + 4 * (size_t)x + c] = run ? d[p] : d[p++]; } if (run) p++; } }
    } return true;
}
static void check(const B& d, size_t start, int w, int h) { ImageBundle<RGB> b; bool ok = load(d, b); B o; bool r = decode(d, start, w, h, o); vp_check(ok == r, "exactly the complete files are accepted"); if (ok && r) { vp_check(b.image.width() == w && b.image.height() == h, "size as declared"); for (size_t i = 0; i < (size_t)(w * h); i++) pixel(b.image[i], &o[4 * i]); } }
static B line(int w) { B d; d.push_back(2); d.push_back(2); d.push_back(0); d.push_back((unsigned char)w); return d; }
ENTRY rle_first() {   // the packets of the first channel are arbitrary
    int w = 8 + (int)vp_choice("w", 3); B d = head("-Y", 1, "+X", w); size_t m = d.size(); for (auto c : line(w)) d.push_back(c); d.push_back((unsigned char)vp_bits("n", 8)); d.push_back((unsigned char)vp_bits("v", 8)); unsigned char n2 = (unsigned char)vp_bits("m", 8); vp_assume(n2 <= 9 || (n2 >= 127 && n2 <= 134)); d.push_back(n2);
    for (int i = 0; i < 9; i++) d.push_back((unsigned char)(130 + i)); for (int i = 0; i < 3; i++) { d.push_back(255); d.push_back((unsigned char)(128 + i)); } for (int i = 0; i < 6; i++) d.push_back((unsigned char)(150 + i)); check(d, m, w, 1); vp_cover("rle1");
}
ENTRY rle_last() {   // the last channel (exponents) and the end of the data
    int w = 9; B d = head("-Y", 2, "+X", w); size_t m = d.size(); for (int y = 0; y < 2; y++) { for (auto c : line(w)) d.push_back(c); for (int i = 0; i < 2; i++) { d.push_back((unsigned char)(y ? 137 : 255)); d.push_back((unsigned char)vp_bits("v", 8)); } d.push_back(4); for (int i = 0; i < 4; i++) d.push_back((unsigned char)(i * 60)); d.push_back((unsigned char)(128 + 5)); d.push_back((unsigned char)vp_bits("v", 8)); if (y == 0) { d.push_back(129); d.push_back(7); d.push_back(0); d.push_back(200); d.push_back(128); } else { d.push_back((unsigned char)vp_bits("n", 8)); for (int i = 0; i < 7; i++) d.push_back((unsigned char)(127 + i)); } } check(d, m, w, 2); vp_cover("rle2");
}
ENTRY scanline_kind() {   // which scanlines are run-length encoded
    static const int ws[] = {2, 7, 8, 10}; int w = ws[vp_choice("w", 4)]; B d = head("-Y", 1, "+X", w); size_t m = d.size(); for (int i = 0; i < 4; i++) d.push_back((unsigned char)vp_bits("b", 8)); vp_assume(d[m + 3] == 0 || d[m + 3] == 128 || d[m + 3] < 12); for (int i = 0; i < 4 * w - 4; i++) d.push_back((unsigned char)(i % 2 ? 120 + i : 200)); check(d, m, w, 1); vp_cover("kind");
}
ENTRY truncated() { bool rle = vp_choice("rle", 2); int w = rle ? 8 : 2, h = 2; B d = head("-Y", h, "+X", w); size_t m = d.size(); for (int y = 0; y < h; y++) if (rle) { for (auto c : line(w)) d.push_back(c); for (int i = 0; i < 4; i++) { d.push_back(132); d.push_back((unsigned char)(128 + i)); d.push_back(4); for (int k = 0; k < 4; k++) d.push_back((unsigned char)(120 + k)); } } else for (int i = 0; i < 8; i++) d.push_back((unsigned char)(100 + i)); size_t n = (size_t)vp_choice("n", 120); if (n < d.size()) d.resize(n); if (n < m) { ImageBundle<RGB> b; vp_check(!load(d, b), "files that end in the header are rejected"); } else check(d, m, w, h); vp_cover("trunc"); }
ENTRY orientation() { bool up = vp_choice("up", 2), left = vp_choice("left", 2); B d = head(up ? "+Y" : "-Y", 2, left ? "-X" : "+X", 3); size_t m = d.size(); for (int i = 0; i < 24; i++) d.push_back(i % 4 == 3 ? (unsigned char)130 : (unsigned char)vp_bits("b", 8)); ImageBundle<RGB> b; vp_check(load(d, b) && b.image.width() == 3 && b.image.height() == 2, "all four orientations of rows are accepted"); for (int y = 0; y < 2; y++) for (int x = 0; x < 3; x++) pixel(b.image(left ? 2 - x : x, up ? 1 - y : y), &d[m + 4 * (size_t)(3 * y + x)]); vp_cover("orient"); }
ENTRY header() {
    struct { const char* t; bool ok; } v[] = {{"#?RADIANCE\n\n-Y 1 +X 1\n", true}, {"#?RGBE\nFORMAT=32-bit_rle_rgbe\nEXPOSURE=2\n# note\n\n-Y 1 +X 1\n", true}, {"#?RADIANCE\r\nFORMAT=32-bit_rle_rgbe\r\n\r\n-Y 1 +X 1\r\n", true}, {"#?\r\r-Y 1 +X 1\r", true}, {"#!RADIANCE\n\n-Y 1 +X 1\n", false}, {"#", false}, {"", false}, {"#?RADIANCE\n\n-Y 0 +X 1\n", false}, {"#?RADIANCE\n\n-Y 1 +X 0\n", false}, {"#?RADIANCE\n\n-Y -1 +X 1\n", false}, {"#?RADIANCE\n\n-Y 1 +X -1\n", false}, {"#?RADIANCE\n\n-Y 1 +Z 1\n", false}, {"#?RADIANCE\n\n-Y 1\n", false}, {"#?RADIANCE\n\nY 1 X 1\n", false}, {"#?RADIANCE\n\n-Y 99999999999 +X 1\n", false}, {"#?RADIANCE\n\n-Y 1 +X 99999999999\n", false}, {"#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n-Y 1 +X 1\n", false}, {"#?RADIANCE\n\n", false}, {"#?RADIANCE\n\n-Y one +X 1\n", false}};
    unsigned k = (unsigned)vp_choice("k", 19); B d = text(v[k].t); size_t m = d.size(); for (int i = 0; i < 4; i++) d.push_back((unsigned char)(i == 3 ? 129 : vp_bits("b", 8) | 16)); ImageBundle<RGB> b; vp_check(load(d, b) == v[k].ok, "well-formed headers are accepted and others rejected"); if (v[k].ok) pixel(b.image(0, 0), &d[m]); vp_cover("header");
}
ENTRY resolution_line() {   // one character of the size line is arbitrary
    B d = text("#?RADIANCE\n\n-Y 2 +X 1\n"); size_t m = d.size(); unsigned k = (unsigned)vp_choice("at", 10); d[m - 1 - k] = (unsigned char)vp_bits("c", 8); for (int i = 0; i < 16; i++) d.push_back((unsigned char)(100 + i)); ImageBundle<RGB> b; if (load(d, b)) vp_check(b.image.width() > 0 && b.image.height() > 0 && b.image.size() <= 4, "an accepted file holds the pixels it declares"); vp_cover("res");
}
ENTRY magic() { B d = head("-Y", 1, "+X", 1); d[0] = (unsigned char)vp_bits("a", 8); d[1] = (unsigned char)vp_bits("b", 8); for (int i = 0; i < 4; i++) d.push_back((unsigned char)(100 + i)); ImageBundle<RGB> b; bool ok = load(d, b); bool t = d[0] == '#' && d[1] == '?'; if (vp_fork(d[0] == '\n' || d[0] == '\r' || d[1] == '\n' || d[1] == '\r')) vp_check(!ok, "files without the signature are rejected"); else vp_check(ok == t, "exactly files with the signature are accepted"); vp_cover("magic"); }
