//! entry: depth time=60
//! entry: normals time=60
//! entry: spectral time=60
//! entry: by_extension time=60
//! entry: extension_chars time=60 opts=--enumcap=300
//! entry: same_as_memory time=60 opts=--bv2real=8
//! libs: -lpng -lturbojpeg -ltiff -lcfitsio
//! bound: images of up to 3x2 pixels; file names with an arbitrary three-letter extension
//! assume: the C and C++ file functions are modelled by files held in memory
#include "vp.hpp"
#include "huira/images/color_map.hpp"
#include "huira/util/paths.hpp"
#include "huira/images/io/read_image.hpp"
using namespace huira;
ENTRY depth() {
    Image<float> m(2, 2); bool far_[4]; float lo = 1e30f, hi = 0; int finite = 0; for (size_t i = 0; i < 4; i++) { far_[i] = i > 0 && vp_choice("far", 2); m[i] = far_[i] ? std::numeric_limits<float>::infinity() : vp_inf("d", 0.01f, 1000); if (!far_[i]) { lo = std::min(lo, m[i]); hi = std::max(hi, m[i]); finite++; } }
    auto o = depth_map(m); vp_check(o.resolution() == m.resolution(), "a depth map keeps the size"); bool flat = vp_fork(lo == hi); for (size_t i = 0; i < 4; i++) { for (size_t k = 1; k < 3; k++) vp_check(o[i][k] == o[i][0], "a depth map is gray"); if (far_[i]) vp_check(o[i][0] == 1.f, "nothing in sight is white"); else if (flat) vp_check(o[i][0] >= 0 && o[i][0] < 1, "a constant depth is a valid gray below white"); else vp_check_close((double)o[i][0] * (hi - lo), 0.8 * (m[i] - lo), 1e-3, "gray grows linearly from the nearest to the farthest depth"); } vp_cover("depth");
}
ENTRY normals() { Image<Vec3<float>> n(2, 1); for (size_t i = 0; i < 2; i++) n[i] = vp_vec3in<float>("n", -1, 1); auto o = normal_map(n); for (size_t i = 0; i < 2; i++) for (int k = 0; k < 3; k++) { vp_check_close(o[i][(size_t)k], 0.5 * n[i][k] + 0.5, 1e-5, "a normal's components are red, green and blue"); vp_check(o[i][(size_t)k] >= 0 && o[i][(size_t)k] <= 1, "a normal is a valid colour"); } vp_check(o.resolution() == n.resolution(), "size"); vp_cover("normals"); }
ENTRY spectral() {
    using S = UniformSpectralBins<4, 380, 780>; Image<RGB> m(3, 2); for (size_t i = 0; i < 6; i++) for (size_t k = 0; k < 3; k++) m[i][k] = vp_inf("c", 0, 1); auto r = rgb_to_spectral<RGB>(m); for (size_t i = 0; i < 6; i++) for (size_t k = 0; k < 3; k++) vp_check(r[i][k] == m[i][k], "colours stay colours");
    auto s = rgb_to_spectral<S>(m); vp_check(s.resolution() == m.resolution(), "size"); for (size_t i = 0; i < 6; i++) { S e = convert_rgb_to_spectral<S>(m[i]); for (size_t k = 0; k < 4; k++) vp_check(s[i][k] == e[k], "images convert pixel by pixel"); }
    auto u = rgb_to_spectral<S>(m, [](RGB c) { return S(c[0] + 2 * c[2]); }); for (size_t i = 0; i < 6; i++) vp_check_close(u[i][3], m[i][0] + 2 * m[i][2], 1e-5, "the conversion given is used"); vp_cover("spectral");
}
ENTRY by_extension() {
    struct { const char* n; ImageFormat f; } v[] = {{"a.bmp", IMAGE_FORMAT_BMP}, {"dir.png/a.BMP", IMAGE_FORMAT_BMP}, {"x.y.hdr", IMAGE_FORMAT_HDR}, {"x.HDR", IMAGE_FORMAT_HDR}, {"x.jpg", IMAGE_FORMAT_JPEG}, {"x.jpeg", IMAGE_FORMAT_JPEG}, {"x.JPG", IMAGE_FORMAT_JPEG}, {"x.JPEG", IMAGE_FORMAT_JPEG}, {"x.png", IMAGE_FORMAT_PNG}, {"x.PNG", IMAGE_FORMAT_PNG}, {"/t/x.tga", IMAGE_FORMAT_TGA}, {"x.TGA", IMAGE_FORMAT_TGA}, {"x.tif", IMAGE_FORMAT_TIFF}, {"x.tiff", IMAGE_FORMAT_TIFF}, {"x.TIF", IMAGE_FORMAT_TIFF}, {"x.TIFF", IMAGE_FORMAT_TIFF}, {"x.fits", IMAGE_FORMAT_FITS}, {"x.FITS", IMAGE_FORMAT_FITS}, {"bmp", IMAGE_FORMAT_UNKNOWN}, {".bmp", IMAGE_FORMAT_UNKNOWN}, {"x.bmp.txt", IMAGE_FORMAT_UNKNOWN}, {"x.", IMAGE_FORMAT_UNKNOWN}, {"", IMAGE_FORMAT_UNKNOWN}, {"d.bmp/", IMAGE_FORMAT_UNKNOWN}};
    unsigned k = (unsigned)vp_choice("k", 24); vp_check(detect_image_format(fs::path(v[k].n)) == v[k].f, "the format follows from the extension"); vp_cover("ext");
}
ENTRY extension_chars() {
    std::string s = "p/q."; for (int i = 0; i < 3; i++) { char c = (char)vp_bits("c", 8); vp_assume(c != '/' && c != '.' && c != 0); s += c; } ImageFormat f = detect_image_format(fs::path(s)); std::string e = s.substr(4);
    ImageFormat x = IMAGE_FORMAT_UNKNOWN; const std::pair<const char*, ImageFormat> t[] = {{"bmp", IMAGE_FORMAT_BMP}, {"hdr", IMAGE_FORMAT_HDR}, {"jpg", IMAGE_FORMAT_JPEG}, {"png", IMAGE_FORMAT_PNG}, {"tga", IMAGE_FORMAT_TGA}, {"tif", IMAGE_FORMAT_TIFF}, {"BMP", IMAGE_FORMAT_BMP}, {"HDR", IMAGE_FORMAT_HDR}, {"JPG", IMAGE_FORMAT_JPEG}, {"PNG", IMAGE_FORMAT_PNG}, {"TGA", IMAGE_FORMAT_TGA}, {"TIF", IMAGE_FORMAT_TIFF}};
    bool mixed = false; for (char c : e) if (c >= 'A' && c <= 'Z') for (char d : e) if (d >= 'a' && d <= 'z') mixed = true; for (auto& p : t) if (e == p.first) x = p.second; if (!mixed) vp_check(f == x, "exactly the known extensions name a format"); vp_cover("chars");
}
static void save(const char* n, const std::vector<unsigned char>& d) { std::ofstream f(n, std::ios::binary); f.write((const char*)d.data(), (std::streamsize)d.size()); f.close(); }
ENTRY same_as_memory() {   // reading a file equals decoding its bytes, whatever the format
    unsigned k = (unsigned)vp_choice("k", 3); std::vector<unsigned char> d; const char* n; ImageFormat f;
    if (k == 0) { d.resize(54 + 8); d[0] = 'B'; d[1] = 'M'; d[10] = 54; d[14] = 40; d[18] = 1; d[22] = 2; d[26] = 1; d[28] = 32; for (size_t i = 0; i < 8; i++) d[54 + i] = (unsigned char)vp_bits("b", 8); n = "vp_c18.bmp"; f = IMAGE_FORMAT_BMP; }
    else if (k == 1) { d.resize(18 + 8); d[2] = 2; d[12] = 2; d[14] = 1; d[16] = 32; for (size_t i = 0; i < 8; i++) d[18 + i] = (unsigned char)vp_bits("b", 8); n = "vp_c18.tga"; f = IMAGE_FORMAT_TGA; }
    else { for (char c : std::string("#?RADIANCE\n\n-Y 1 +X 1\n")) d.push_back((unsigned char)c); for (int i = 0; i < 4; i++) d.push_back(i == 3 ? (unsigned char)130 : (unsigned char)vp_bits("b", 8)); n = "vp_c18.hdr"; f = IMAGE_FORMAT_HDR; }
    save(n, d); bool alpha = vp_choice("alpha", 2); auto a = read_image(fs::path(n), alpha), b = read_image(f, d.data(), d.size(), alpha); auto g = read_image_mono(fs::path(n), alpha), h = read_image_mono(f, d.data(), d.size(), alpha);
    vp_check(a.image.resolution() == b.image.resolution() && g.image.resolution() == a.image.resolution() && !a.image.empty(), "same size"); for (size_t i = 0; i < a.image.size(); i++) { for (size_t c = 0; c < 3; c++) vp_check(a.image[i][c] == b.image[i][c], "the file decodes like its bytes"); vp_check(g.image[i] == h.image[i], "the file decodes like its bytes"); vp_check_close(g.image[i], (a.image[i][0] + a.image[i][1] + a.image[i][2]) / 3, 1e-5, "gray is the mean of the channels"); }
    vp_check(a.alpha.empty() == (!alpha || k == 2) && g.alpha.empty() == a.alpha.empty(), "transparency is read when asked for"); vp_check(vp_throws([] { read_image(fs::path("vp_c18_missing.bmp")); }) && vp_throws([&] { read_image(IMAGE_FORMAT_UNKNOWN, d.data(), d.size()); }) && vp_throws([&] { read_image_mono(IMAGE_FORMAT_UNKNOWN, d.data(), d.size()); }), "missing files and unknown formats are rejected"); std::remove(n); vp_cover("same");
}
