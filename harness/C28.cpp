// C28: star catalogues
//! entry: ids mode=fp time=30
//! entry: saved mode=fp time=60
//! entry: broken mode=fp time=60
//! entry: observed time=120 opts=--bv2real=8,--pruneDiv0,--tq=500,--ts=500
//! entry: supplement time=120 opts=--bv2real=8,--pruneDiv0,--tq=500,--ts=500
//! entry: sky time=40
//! bound: catalogues of up to four stars with every bit of every field free; records with any digits in one field at a time; files cut at any byte
#include "vp.hpp"
#include "huira/util/logger.hpp"
#include "huira/core/types.hpp"
#include <iostream>
#include <iomanip>
#include <fstream>
#include <filesystem>
#include "huira/core/constants.hpp"
#include "huira/core/physics.hpp"
#include "huira/stars/io/star_catalog.hpp"
#include "huira/stars/io/load_tycho2.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/stars/star.hpp"
using namespace huira; using D = StarData;
ENTRY ids() {
    unsigned a = vp_bits("tyc1", 14), b = vp_bits("tyc2", 16), c = vp_bits("tyc3", 4), d = vp_bits("other", 14), e = vp_bits("other2", 16), f = vp_bits("other3", 4); uint64_t i = pack_tycho2_id((uint16_t)a, (uint16_t)b, (uint8_t)c), j = pack_tycho2_id((uint16_t)d, (uint16_t)e, (uint8_t)f); uint16_t x, y; uint8_t z; unpack_tycho2_id(i, x, y, z);
    vp_check(x == a && y == b && z == c, "identifiers unpack to their parts"); vp_check((i == j) == (a == d && b == e && c == f), "different stars have different identifiers"); vp_check((i < j) == (a < d || (a == d && (b < e || (b == e && c < f)))), "identifiers order by part"); vp_cover("ids");
}
static float magn(const char* n) { unsigned u = vp_bits(n, 32); float f; memcpy(&f, &u, 4); return f; }
static double dbl(const char* n) { uint64_t u = vp_bits(n, 64); double f; memcpy(&f, &u, 8); return f; }
static uint64_t b64(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static uint32_t b32(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
static bool same(const D& a, const D& b) { return a.id == b.id && b64(a.RA) == b64(b.RA) && b64(a.DEC) == b64(b.DEC) && b32(a.pmRA) == b32(b.pmRA) && b32(a.pmDEC) == b32(b.pmDEC) && b64(a.solid_angle) == b64(b.solid_angle) && b32(a.temperature) == b32(b.temperature) && b32(a.visual_magnitude) == b32(b.visual_magnitude); }
ENTRY saved() {
    int n = vp_choice("stars", 4); StarCatalog c; std::vector<D> all; static const char* N[4] = {"m0", "m1", "m2", "m3"}; for (int i = 0; i < n; ++i) { D s; s.id = 16 + i; s.RA = i == 0 ? dbl("ra") : i; s.DEC = i == 1 ? dbl("dec") : i; s.pmRA = i == 2 ? magn("pm") : i; s.pmDEC = -i; s.solid_angle = i == 2 ? dbl("omega") : i * 2; s.temperature = i == 1 ? magn("temp") : 1; s.visual_magnitude = magn(N[i]); all.push_back(s); c.add_star(s); }
    int type = vp_choice("type", 2); c.set_catalog_type((CatalogType)type); auto p = std::filesystem::path("/tmp/vp.hrsc"); c.write_star_data(p); float lim = magn("limit"); vp_assume(lim == lim); StarCatalog r = StarCatalog::read_star_data(p, lim); unsigned want = 0; for (auto& s : all) want += s.visual_magnitude <= lim;
    vp_check(r.size() == want, "all stars down to the limit are read"); unsigned seen = 0; for (size_t i = 0; i < r.size(); ++i) { auto& s = r[i]; if (i) vp_check(r[i - 1].visual_magnitude <= s.visual_magnitude, "brightest first"); vp_check(s.visual_magnitude <= lim, "and none fainter"); unsigned k = (unsigned)(s.id - 16); vp_check(k < (unsigned)n, "no star is invented"); if (k < (unsigned)n) { vp_check(!(seen & (1u << k)), "no star is repeated"); seen |= 1u << k; vp_check(same(s, all[k]), "stars come back bit for bit"); } }
    if (r.size()) vp_check(r.get_star_id(0) == (type ? format_tycho2_id(r[0].id) : std::to_string(r[0].id)), "the kind of catalogue is kept"); vp_check(vp_throws([&] { r.get_star_id(r.size()); }), "stars beyond the end have no name"); c.clip_by_magnitude(lim); vp_check(c.size() == want, "clipping keeps the same stars"); for (auto& s : c) vp_check(s.visual_magnitude <= lim, "clipping keeps the same stars"); vp_cover("saved");
}
ENTRY broken() {   // damaged files are reported
    StarCatalog c; for (int i = 0; i < 2; ++i) { D s; s.RA = s.DEC = i; s.visual_magnitude = (float)i; c.add_star(s); } auto p = std::filesystem::path("/tmp/vp.hrsc"); c.write_star_data(p); std::vector<char> b; { std::ifstream in(p, std::ios::binary); b.resize(4096); in.read(b.data(), 4096); b.resize((size_t)in.gcount()); } size_t full = b.size();
    int how = vp_choice("damage", 3); bool ok = true; if (how == 0) { int cut = vp_choice("cut", 9); static const size_t K[9] = {0, 1, 4, 12, 31, 33, 60, 80, 1000}; if (cut < 8 && K[cut] < b.size()) { b.resize(K[cut]); ok = false; } } else if (how == 1) { int at = vp_choice("at", 5); uint8_t v = (uint8_t)vp_bits("byte", 8); ok = v == (uint8_t)b[at]; b[at] = (char)v; } else { uint64_t n = vp_bits("count", 64); HrscHeader h; memcpy((void*)&h, b.data(), sizeof h); vp_check(h.star_count == 2, "the file says how many stars it holds"); h.star_count = n; memcpy(b.data(), &h, sizeof h); ok = n <= 2; }
    { std::ofstream o(p, std::ios::binary); o.write(b.data(), (std::streamsize)b.size()); } bool bad = vp_throws([&] { StarCatalog r = StarCatalog::read_star_data(p); vp_check(r.size() <= 2, "only stars in the file"); for (size_t i = 0; i < r.size(); ++i) vp_check(r[i].RA == (double)i && r[i].visual_magnitude == (float)i, "only stars in the file"); }); vp_check(bad == !ok, "exactly damaged files are reported"); (void)full; vp_cover("broken");
}

static double deg(double x) { return x * 3.141592653589793 / 180.; }
static const double MAS = 3.141592653589793 / (180.0 * 3600.0 * 1000.0);
// writes a field whose '#' are free digits; returns the number it spells
static double put(std::string& l, size_t col, const char* t, const char* name) { double m = 0, sc = 1; bool neg = false, dot = false; for (const char* q = t; *q; ++q, ++col) { char c = *q; if (c == '-') neg = true; if (c == '.') dot = true; if (c == '#') { unsigned d = vp_bits(name, 4); vp_assume(d <= 9); c = (char)('0' | d); m = m * 10 + (double)d; } else if (c >= '0' && c <= '9') m = m * 10 + (c - '0'); if ((c >= '0' || c < ' ') && dot) sc *= 10; l[col] = c; } m /= sc; return neg ? -m : m; }
static void text(std::string& l, size_t col, const char* t) { for (; *t; ++t) l[col++] = *t; }
static std::vector<D> load(const std::string& s, bool sup) { auto p = std::filesystem::path("/tmp/vp.dat"); { std::ofstream o(p, std::ios::binary); o.write(s.data(), (std::streamsize)s.size()); } return sup ? read_tycho2_suppl(p) : read_tycho2_dat(p); }
struct Mag { const char *bt, *vt; double v, bv; };
static const Mag MG[6] = {{" 6.146", " 5.846", 5.846 - 0.09 * 0.3, 0.85 * 0.3}, {"12.000", "      ", 12, 0.3}, {"      ", "-1.088", -1.088, 0.3}, {" 9.000", "10.000", 10.09, -0.85}, {"11.500", " 9.500", 9.32, 1.7}, {"      ", "      ", 0, 0}};
static double temp(double bv) { return 4600 * (1 / (0.92 * bv + 1.7) + 1 / (0.92 * bv + 0.62)); }
static std::string blank(size_t n, bool sup) { std::string l(n, ' '); static const int B[] = {12, 14, 27, 40, 48, 56}; for (int b : B) l[(size_t)b] = '|'; text(l, 0, "9999 12345 3"); if (!sup) { text(l, 139, "| |         |"); l[164] = l[177] = '|'; text(l, 178, "0.00|0.00|"); } return l; }
static const double TOL = 1e-9;
ENTRY observed() {   // main catalogue
    bool X = vp_choice("flag", 2), junk = vp_choice("junk", 2), nl = vp_choice("newline", 2); bool moving = vp_choice("moving", 2); const Mag& m = MG[vp_choice("mag", moving ? 2 : 6)]; bool A = moving && vp_choice("axis", 2); std::string l = blank(206, false); l[13] = X ? 'X' : ' '; double ra, de, er = 2000, ed = 2000, pa = 0, pd = 0; static const char* T[3] = {"0001 00008 1", "9537 12121 3", "0407    64 2"}; static const int TN[3][3] = {{1, 8, 1}, {9537, 12121, 3}, {407, 64, 2}}; int ti = (int)(&m - MG) % 3; text(l, 0, T[ti]);
    if (X) { text(l, 15, "            "); ra = put(l, 152, A ? "#23.1234567#" : "123.45678901", "ra"); de = put(l, 165, A ? "-63.12345678" : "-#3.123456#8", "de"); er = 1990 + put(l, 178, A ? "1.#7" : "1.67", "er"); ed = 1990 + put(l, 183, A ? "2.54" : "2.#4", "ed"); } else { ra = put(l, 15, A ? "3#7.12345#78" : "307.12345678", "ra"); de = put(l, 28, A ? " -4.12345678" : "-4#.123#5678", "de"); put(l, 152, "111.11111111", "x"); put(l, 165, "-11.11111111", "x"); put(l, 178, "1.11", "x"); put(l, 183, "2.22", "x"); }
    if (moving) { pa = put(l, 41, A ? " -#23.4" : "   23.4", "pa"); pd = put(l, 49, A ? "  82.15" : "  #2.1#", "pd"); } text(l, 110, m.bt); l[116] = '|'; text(l, 123, m.vt); l[129] = '|'; std::string f = "# comment\n\n"; if (junk) { std::string j = l; text(j, 15, "            "); text(j, 152, "            "); text(j, 41, "  999.9"); text(j, 49, " -999.9"); f += j + "\n"; std::string k = l; text(k, 41, "  555.5"); text(k, 49, " -555.5"); text(k, 110, "      "); text(k, 123, "      "); f += k + "\n"; }
    f += l; if (nl) f += "\n"; auto v = load(f, false); bool none = &m == &MG[5]; vp_check(v.size() == (none ? 0u : 1u), "each complete record gives one star"); if (none || v.empty()) return; const D& s = v[0]; double dec = deg(de) + pd * MAS * (2000 - ed); vp_check(s.id == pack_tycho2_id((uint16_t)TN[ti][0], (uint16_t)TN[ti][1], (uint8_t)TN[ti][2]), "identifiers are the record's"); vp_check_close(s.pmRA, pa, 1e-4, "proper motions are the record's"); vp_check_close(s.pmDEC, pd, 1e-4, "proper motions are the record's"); vp_check_close(s.DEC, dec, TOL, "declinations are brought to 2000"); if (ed == 2000 || !moving) vp_check_close(s.RA, deg(ra), TOL, "right ascensions are brought to 2000"); else vp_check_close((s.RA - deg(ra)) * std::cos(s.DEC), pa * MAS * (2000 - er), TOL, "right ascensions are brought to 2000");
    vp_check_close(s.visual_magnitude, m.v, 1e-4, "magnitudes follow the published conversion"); vp_check_close(s.temperature, temp(m.bv), 0.1, "temperatures follow the colour"); vp_cover("observed");
}
ENTRY supplement() {
    bool junk = vp_choice("junk", 2), nl = vp_choice("newline", 2); bool moving = vp_choice("moving", 2); const Mag& m = MG[vp_choice("mag", moving ? 2 : 6)]; bool A = moving && vp_choice("axis", 2); std::string l = blank(122, true); l[13] = 'T'; double pa = 0, pd = 0, ra = put(l, 15, A ? "3#7.12345#78" : "307.12345678", "ra"), de = put(l, 28, A ? " -4.12345678" : "-4#.123#5678", "de"); if (moving) { pa = put(l, 41, A ? " -#23.4" : "   23.4", "pa"); pd = put(l, 49, A ? "  82.15" : "  #2.1#", "pd"); } text(l, 83, m.bt); text(l, 96, m.vt); l[89] = l[102] = '|'; std::string f = "x\n"; if (junk) { std::string k = l; text(k, 41, "  555.5"); text(k, 49, " -555.5"); text(k, 83, "      "); text(k, 96, "      "); f += k + "\n"; text(k, 83, " 1.000"); text(k, 15, "            "); f += k + "\n"; }
    f += l; if (nl) f += "\n"; auto v = load(f, true); bool none = &m == &MG[5]; vp_check(v.size() == (none ? 0u : 1u), "each complete record gives one star"); if (none || v.empty()) return; const D& s = v[0]; vp_check(s.id == pack_tycho2_id(9999, 12345, 3), "identifiers are the record's"); vp_check_close(s.pmRA, pa, 1e-4, "proper motions are the record's"); vp_check_close(s.pmDEC, pd, 1e-4, "proper motions are the record's"); vp_check_close(s.DEC, deg(de) + pd * MAS * 8.75, TOL, "declinations are brought to 2000"); vp_check_close((s.RA - deg(ra)) * std::cos(s.DEC), pa * MAS * 8.75, TOL, "right ascensions are brought to 2000");
    vp_check_close(s.visual_magnitude, m.v, 1e-4, "magnitudes follow the published conversion"); vp_check_close(s.temperature, temp(m.bv), 0.1, "temperatures follow the colour"); vp_cover("supplement");
}
ENTRY sky() {   // a star's direction follows its proper motion
    D s; s.RA = vp_in("ra", 0, 6.3); s.DEC = vp_in("dec", -1.5, 1.5); bool still = vp_choice("still", 2); s.pmRA = still ? 0 : vp_inf("pmra", -1000, 1000); s.pmDEC = still ? 0 : vp_inf("pmdec", -1000, 1000); double t = vp_in("years", -100, 100); static const float TE[3] = {3000, 5778, 20000}; s.temperature = TE[vp_choice("temp", 3)]; s.solid_angle = vp_in("omega", 0, 1e-10);
    Star<RGB> a(s, t); Star<RGB> b(Vec3<double>(0, 0, 2), RGB(1)); auto q = b.get_direction(); vp_check(q.x == 0 && q.y == 0 && q.z == 1, "directions are normalised"); b.update_direction(s, t); auto p = a.get_direction(), r = b.get_direction(); double d = s.DEC + (double)s.pmDEC * MAS * t, al = s.RA + (double)s.pmRA * MAS * t / std::cos(d); vp_assume(std::cos(d) >= 0.01);
    vp_check_close(glm::dot(p, p), 1, 1e-9, "directions have unit length"); vp_check_close(p.z, std::sin(d), 1e-9, "declination moves by its proper motion"); if (still) { vp_check_close(p.x, std::cos(d) * std::cos(s.RA), 1e-9, "right ascension is kept by a fixed star"); vp_check_close(p.y, std::cos(d) * std::sin(s.RA), 1e-9, "right ascension is kept by a fixed star"); } else { vp_check_close(p.x, std::cos(d) * std::cos(al), 1e-9, "right ascension moves by its proper motion over the cosine of the declination"); vp_check_close(p.y, std::cos(d) * std::sin(al), 1e-9, "right ascension moves by its proper motion over the cosine of the declination"); }
    vp_check(p.x == r.x && p.y == r.y && p.z == r.z, "updating a star is making it anew"); RGB bb = black_body<RGB>((double)s.temperature), i = a.get_irradiance(); for (int k = 0; k < 3; ++k) { vp_check_close(i[k], (double)bb[k] * s.solid_angle, 1e-6, "irradiance is black-body radiance times solid angle"); vp_check(b.get_irradiance()[k] == 1, "moving a star does not change its brightness"); } vp_cover("sky");
}
