//! entry: types time=60 opts=--bv2real=8 asan=1
//! entry: depths time=60 opts=--bv2real=8,--enumcap=300 asan=1
//! entry: size time=60 opts=--bv2real=8,--enumcap=100 asan=1
//! entry: truncated time=60 opts=--bv2real=8,--enumcap=100 asan=1
//! entry: rle_gray time=60 opts=--bv2real=8,--enumcap=300 asan=1
//! entry: rle_color time=60 opts=--bv2real=8,--enumcap=300 asan=1
//! entry: rle_long time=60 opts=--bv2real=8,--enumcap=300 asan=1
//! entry: palette8 time=60 opts=--bv2real=8,--enumcap=300 asan=1
//! entry: palette16 time=60 opts=--bv2real=8,--enumcap=300 asan=1
//! entry: palette_size time=60 opts=--bv2real=8,--enumcap=300 asan=1
//! entry: descriptor time=60 opts=--bv2real=8 asan=1
//! entry: image_id time=60 opts=--bv2real=8,--enumcap=300 asan=1
//! entry: mono time=60 opts=--bv2real=8 asan=1
//! bound: files of up to 64 bytes and images of up to 3x3 pixels (300x1 for long runs); header fields vary two or three at a time, pixel and packet bytes arbitrary
#include "vp.hpp"
#include "huira/images/io/tga_io.hpp"
using namespace huira;
using B = std::vector<unsigned char>;
static B head(int type, int w, int h, int depth, int desc = 0x20, int id = 0, int cmt = 0, int first = 0, int len = 0, int entry = 0) {
    B d(18); d[0] = (unsigned char)id; d[1] = (unsigned char)cmt; d[2] = (unsigned char)type; d[3] = (unsigned char)first; d[4] = (unsigned char)(first >> 8); d[5] = (unsigned char)len; d[6] = (unsigned char)(len >> 8); d[7] = (unsigned char)entry;
    d[12] = (unsigned char)w; d[13] = (unsigned char)(w >> 8); d[14] = (unsigned char)h; d[15] = (unsigned char)(h >> 8); d[16] = (unsigned char)depth; d[17] = (unsigned char)desc; return d;
}
static void fill(B& d, size_t n) { while (d.size() < n) d.push_back((unsigned char)(d.size() * 37 + 11)); }
struct Out { bool ok = false, alpha = false; int w = 0, h = 0; std::vector<std::array<unsigned char, 4>> px; };
// An independent decoder, following the file format's definition
static Out decode(const B& d) {
    Out o; size_t n = d.size(); if (n < 18) return o;
    int type = d[2], depth = d[16], entry = d[7]; unsigned first = d[3] + 256u * d[4], len = d[5] + 256u * d[6]; o.w = d[12] + 256 * d[13]; o.h = d[14] + 256 * d[15];
    bool map = type == 1 || type == 9, gray = type == 3 || type == 11, full = type == 2 || type == 10, rle = type >= 9; if (vp_fork(!map && !gray && !full)) return o; map = vp_fork(map); gray = !map && vp_fork(gray); rle = vp_fork(rle);
    size_t p = 18 + (size_t)d[0]; if (vp_fork(p > n)) return o; size_t table = p, eb = 0; bool hasmap = vp_fork(d[1] == 1 && len > 0);
    if (hasmap) { eb = vp_concretize((size_t)(entry + 7) / 8); if (vp_fork(p + len * eb > n)) return o; p += len * eb; }
    bool good = map ? hasmap && (depth == 8 || depth == 16) && (entry == 24 || entry == 32) : gray ? depth == 8 : depth == 24 || depth == 32; if (!vp_fork(good)) return o;
    size_t bytes = vp_concretize((size_t)depth / 8); o.alpha = vp_fork(map ? entry == 32 : !gray && depth == 32); size_t total = (size_t)o.w * (size_t)o.h; B raw;
    if (!rle) { if (vp_fork(p + total * bytes > n)) return o; p = vp_concretize(p); if (vp_fork(total == 0)) { o.ok = true; return o; } total = vp_concretize(total); for (size_t i = 0; i < total * bytes; i++) raw.push_back(d[p + i]); }
    else { p = vp_concretize(p); while (raw.size() < total * bytes) { if (p >= n) return o; unsigned c = d[p++]; bool run = vp_fork((c & 0x80) != 0); size_t need = vp_concretize(run ? 1 : (c & 0x7f) + 1u) * bytes; if (p + need > n) return o; size_t reps = run ? vp_concretize((c & 0x7f) + 1u) : 1; for (size_t r = 0; r < reps; r++) for (size_t i = 0; i < need; i++) if (raw.size() < total * bytes) raw.push_back(d[p + i]); p += need; } }
    o.w = (int)vp_concretize((unsigned)o.w); o.h = (int)vp_concretize((unsigned)o.h); bool top = vp_fork((d[17] & 0x20) != 0); if (map) table = vp_concretize(table);
    for (int y = 0; y < o.h; y++) for (int x = 0; x < o.w; x++) {
        const unsigned char* q = &raw[((size_t)(top ? y : o.h - 1 - y) * (size_t)o.w + (size_t)x) * bytes]; std::array<unsigned char, 4> v{0, 0, 0, 255};
        if (map) { unsigned i = bytes == 1 ? q[0] : q[0] + 256u * q[1]; if (vp_fork(i < first || i - first >= len)) return o; q = &d[vp_concretize(table + (i - first) * eb)]; v = {q[2], q[1], q[0], eb == 4 ? q[3] : (unsigned char)255}; }
        else if (gray) v = {q[0], q[0], q[0], 255}; else v = {q[2], q[1], q[0], bytes == 4 ? q[3] : (unsigned char)255};
        o.px.push_back(v);
    }
    o.ok = true; return o;
}
static void check(const B& d) {
    unsigned char* p = new unsigned char[d.size()]; for (size_t i = 0; i < d.size(); i++) p[i] = d[i]; ImageBundle<RGB> b; bool t = vp_throws([&] { b = read_image_tga(p, d.size()); }); delete[] p; Out o = decode(d); vp_check(t == !o.ok, "exactly the complete, supported files are accepted");
    if (t || !o.ok) return; vp_check(b.image.width() == o.w && b.image.height() == o.h && b.alpha.empty() == !(o.alpha && o.px.size() > 0), "size and transparency follow the header");
    for (size_t i = 0; i < o.px.size(); i++) { for (size_t k = 0; k < 3; k++) vp_check_close(b.image[i][k], o.px[i][k] / 255.0, 1e-5, "every pixel has the file's colour"); if (o.alpha) vp_check_close(b.alpha[i], o.px[i][3] / 255.0, 1e-5, "every pixel has the file's transparency"); }
}
static void any(B& d, size_t from) { for (size_t i = from; i < d.size(); i++) d[i] = (unsigned char)vp_bits("b", 8); }
ENTRY types() { B d = head(2, 2, 2, vp_choice("deep", 2) ? 32 : 8); fill(d, 48); d[2] = (unsigned char)vp_bits("type", 8); d[1] = (unsigned char)vp_bits("cmt", 8); if (vp_choice("map", 2)) { d[5] = 2; d[7] = 24; } check(d); vp_cover("types"); }
ENTRY depths() { static const int ty[] = {1, 2, 3, 9, 10, 11}; int t = ty[vp_choice("type", 6)]; B d = head(t, 2, 1, 8, 0x20, 0, t == 1 || t == 9, 0, 3, 24); if (t == 1 || t == 9) { fill(d, 18 + 12); d.push_back(0); d.push_back(1); } fill(d, 44); if (vp_choice("which", 2)) d[16] = (unsigned char)vp_bits("depth", 8); else d[7] = (unsigned char)vp_bits("entry", 8); if (t == 9) { d[27] = 1; d[28] = 0; } check(d); vp_cover("depths"); }
ENTRY size() {
    static const int ty[] = {2, 3, 10, 11}; int t = ty[vp_choice("type", 4)]; B d = head(t, 1, 1, t == 2 || t == 10 ? 24 : 8); fill(d, 34); unsigned big[] = {0, 1, 3, 17, 255, 256, 65535}; unsigned w = (unsigned)vp_bits("w", 16), h = big[vp_choice("h", 7)]; if (vp_fork(w <= 20)) w = (unsigned)vp_concretize(w); if (vp_fork(w <= 20 || h != 0)) { if (vp_choice("swap", 2)) std::swap(w, h); }
    if (t >= 10) { if (!vp_fork(w <= 20)) w = 20; if (!vp_fork(h <= 20)) h = 20; } d[12] = (unsigned char)w; d[13] = (unsigned char)(w >> 8); d[14] = (unsigned char)h; d[15] = (unsigned char)(h >> 8); check(d); vp_cover("size");
}
ENTRY truncated() { static const int ty[] = {1, 2, 3, 10, 11}; int t = ty[vp_choice("type", 5)]; B d = t == 1 ? head(1, 2, 1, 8, 0x20, 1, 1, 0, 2, 24) : head(t, 2, 2, t == 3 || t == 11 ? 8 : 24, 0, (int)vp_choice("id", 2) * 3); fill(d, 60); if (t == 1) d[25] = 0, d[26] = 1; if (t >= 10) d[18 + d[0]] = (unsigned char)(vp_choice("run", 2) ? 0x83 : 3); size_t n = (size_t)vp_choice("n", 36); d.resize(n); check(d); vp_cover("trunc"); }
ENTRY rle_gray() { B d = head(11, 3, 1, 8, 0); d.resize(23); any(d, 18); check(d); vp_cover("rlegray"); }
ENTRY rle_color() { B d = head(10, 1, 2, vp_choice("deep", 2) ? 32 : 24, 0); d.resize(27); any(d, 18); check(d); vp_cover("rlecolor"); }
ENTRY rle_long() { B d = head(11, 70, 2, 8); d.push_back(0xff); d.push_back(7); d.push_back((unsigned char)vp_bits("c", 8)); fill(d, 21 + 20); d[22] = 0xc0; d[24] = 0xff; check(d); vp_cover("rlelong"); }
ENTRY palette8() { B d = head(vp_choice("rle", 2) ? 9 : 1, 2, 1, 8, 0, 0, 1, (int)vp_choice("first", 3) * 127, 2, vp_choice("deep", 2) ? 32 : 24); fill(d, 18 + 2 * (d[7] / 8u)); size_t m = d.size(); if (d[2] == 9) d.push_back(1), m++; d.resize(m + 2); any(d, m); check(d); vp_cover("pal8"); }
ENTRY palette16() { static const int fs[] = {0, 3, 256, 65535}; B d = head(1, 1, 1, 16, 0, 0, 1, fs[vp_choice("first", 4)], 2, 24); fill(d, 18 + 6); size_t m = d.size(); d.resize(m + 2); any(d, m); check(d); vp_cover("pal16"); }
ENTRY palette_size() { B d = head(1, 1, 1, 8, 0, 0, 1, 0, 1, 24); fill(d, 40); d[21] = (unsigned char)vp_bits("ll", 8); d[22] = (unsigned char)(vp_choice("lh", 2) * 255); if (vp_fork(d[22] == 0 && d[21] < 9)) d[21] = (unsigned char)vp_concretize(d[21]); d[19 - 1 + 0] = d[18]; check(d); vp_cover("palsize"); }
ENTRY descriptor() { static const int ty[] = {1, 2, 3}; int t = ty[vp_choice("type", 3)]; B d = t == 1 ? head(1, 1, 2, 8, 0, 0, 1, 0, 2, 24) : head(t, 1, 2, t == 3 ? 8 : 32); fill(d, 40); if (t == 1) d[24] = 0, d[25] = 1; d[17] = (unsigned char)vp_bits("desc", 8); check(d); vp_cover("desc"); }
ENTRY image_id() { static const int ty[] = {1, 2, 3, 9, 11}; int t = ty[vp_choice("type", 5)]; B d = t == 1 || t == 9 ? head(t, 2, 1, 8, 0, 0, 1, 0, 2, 24) : head(t, 2, 1, t == 2 ? 24 : 8); d.resize(34); for (size_t i = 18; i < d.size(); i++) d[i] = (unsigned char)(i & 1); d[0] = (unsigned char)vp_bits("id", 8); if (vp_fork(d[0] <= 17)) d[0] = (unsigned char)vp_concretize(d[0]); check(d); vp_cover("id"); }
ENTRY mono() {
    static const int ty[] = {1, 2, 3, 10}; int t = ty[vp_choice("type", 4)]; B d = t == 1 ? head(1, 2, 2, 8, 0, 0, 1, 0, 2, 32) : head(t, 2, 2, t == 3 ? 8 : 32, 0); fill(d, 18); size_t m = 18; if (t == 1) { m = 26; } d.resize(t == 1 ? 30 : t == 3 ? 22 : t == 10 ? 35 : 34); any(d, 18); if (t == 1) for (size_t i = 0; i < 4; i++) d[26 + i] = (unsigned char)(i & 1); if (t == 10) d[18] = 3; (void)m;
    ImageBundle<float> b = read_image_tga_mono(d.data(), d.size()); Out o = decode(d); vp_check(o.ok && b.image.width() == 2 && b.image.height() == 2, "accepted"); for (size_t i = 0; i < 4; i++) { vp_check_close(b.image[i], ((double)o.px[i][0] + (double)o.px[i][1] + (double)o.px[i][2]) / 765.0, 1e-5, "gray is the mean of the channels"); if (o.alpha) vp_check_close(b.alpha[i], o.px[i][3] / 255.0, 1e-5, "gray images keep the transparency"); }
    vp_check(read_image_tga_mono(d.data(), d.size(), false).alpha.empty() && read_image_tga(d.data(), d.size(), false).alpha.empty(), "transparency is left out on request"); vp_cover("mono");
}
