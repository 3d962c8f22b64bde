//! entry: counts time=60 opts=--symround
//! entry: floats time=60
//! entry: metadata time=60
//! entry: again time=60 opts=--symround
//! entry: foreign time=60
//! entry: faults time=60
//! bound: images of up to 3x2 pixels with arbitrary values of two to six pixels, undefined pixels anywhere among the rest; all five sample types; sensors of 0 (unset), 8, 12, 14 and 16 bits; every keyword present or absent, its numbers arbitrary below 100; a fault at any call into the library
//! assume: CFITSIO itself is replaced by a model of its documented behaviour (conversion of pixels, header cards, status codes)
#include "fits.hpp"
#include "huira/util/paths.hpp"
#include "huira/images/io/io_util.hpp"
#include "huira/images/io/fits_io.hpp"
using namespace huira;
static const float NAN_ = std::numeric_limits<float>::quiet_NaN();
static float cl(float v, float lo, float hi) { return v < lo ? lo : v > hi ? hi : v; }
static double full(int bits, int depth) { double m = depth == 8 ? 255 : depth == 16 ? 32767 : 2147483647.0; double a = bits ? (double)((1L << bits) - 1) : m; return a < m ? a : m; }
static bool same(double a, double b, double tol) { return a - b <= tol && b - a <= tol; }
// integer samples: counts of the sensor's range, undefined pixels kept
ENTRY counts() {
    int depth = (int[]){8, 16, 32}[vp_choice("depth", 3)], bits = (int[]){0, 8, 12, 14, 16}[vp_choice("sensor", 5)]; int hole = (int)vp_choice("undefined", 3); Image<float> im(2, 2); im.set_sensor_bit_depth(bits); float a = vp_inf("a", -0.5f, 1.5f), b = vp_inf("b", 0.f, 1.f); im(0, 0) = a; im(1, 1) = b; im(1, 0) = hole ? NAN_ : 0.25f; im(0, 1) = hole == 2 ? std::numeric_limits<float>::infinity() : 1.f;
    write_image_fits("/im.fits", im, depth); vp_check(ff::opened == 0, "files are closed"); auto& f = ff::disk[0]; vp_check(f.bitpix == depth && f.naxes.size() == 2 && f.naxes[0] == 2 && f.naxes[1] == 2, "size and sample type as asked"); double m = full(bits, depth);
    double lo = depth == 8 ? 1 : 0; double top = full(0, depth) / m, q[2] = {(double)cl(a, 0, (float)top) * m, (double)b * m}; size_t at[2] = {2, 1}; for (int i = 0; i < 2; i++) { double n = f.px[at[i]]; vp_check(q[i] < lo ? same(n, lo, 0.5001) : same(n, q[i], 0.5001 + m * 1e-7), "counts are the value times the sensor's range, to the nearest"); }
    auto [r, meta] = read_image_fits("/im.fits"); vp_check(ff::opened == 0 && r.width() == 2 && r.height() == 2, "read back in full"); double tol = 0.5001 / m + 3e-7;
    vp_check(same(r(0, 0), (double)cl(a, (float)(lo / m), (float)top), tol), "pixels come back within half a count"); vp_check(same(r(1, 1), (double)cl(b, (float)(lo / m), 1), tol), "pixels come back within half a count");
    if (hole) vp_check(r(1, 0) != r(1, 0), "undefined pixels come back undefined"); else vp_check(same(r(1, 0), 0.25, tol), "pixels come back within half a count"); if (hole == 2) vp_check(r(0, 1) != r(0, 1), "infinite pixels come back undefined"); else vp_check(same(r(0, 1), 1, tol), "white comes back white");
    if (bits && full(bits, depth) == (double)((1L << bits) - 1)) vp_check(r.sensor_bit_depth() == bits, "the sensor's depth comes back"); vp_check(meta.saturate.has_value() && *meta.saturate == m && meta.bunit == "adu", "the range of counts is recorded"); vp_cover("counts");
}
ENTRY floats() { int depth = vp_choice("depth", 2) ? -64 : -32; Image<float> im(3, 2); im.set_sensor_bit_depth(vp_choice("sensor", 2) ? 12 : 0); float v[6]; for (int i = 0; i < 6; i++) im[(size_t)i] = v[i] = i % 2 ? vp_inf("p", -1e6f, 1e6f) : (float)(i * 7 - 3); int hole = (int)vp_choice("undefined", 7); if (hole < 6) im[(size_t)hole] = NAN_; write_image_fits("/im.fits", im, depth); auto& f = ff::disk[0]; vp_check(f.bitpix == depth && f.naxes[0] == 3 && f.naxes[1] == 2, "size and sample type as asked"); for (int i = 0; i < 6; i++) if (i != hole) vp_check(f.px[(size_t)((1 - i / 3) * 3 + i % 3)] == (double)v[i], "the first row of the file is the bottom one"); auto [r, m] = read_image_fits("/im.fits"); for (int i = 0; i < 6; i++) if (i == hole) vp_check(r[(size_t)i] != r[(size_t)i], "undefined pixels come back undefined"); else vp_check(r[(size_t)i] == v[i], "physical values come back as they are"); vp_check(ff::opened == 0 && !m.saturate && m.bunit.empty() && r.sensor_bit_depth() == 0, "physical values are not counts"); vp_cover("floats"); }
ENTRY metadata() {
    FitsMetadata m; int set = (int)vp_choice("set", 6), odd = (int)vp_choice("odd", 3); auto num = [](const char* n) { return vp_in(n, -90.0, 90.0); };
    if (set & 1) { m.object = "M31"; m.telescop = "Huira"; m.instrume = "Cam"; m.observer = "Me"; m.date_obs = "2026-01-02"; m.origin = "Here"; m.filter = "V"; m.bunit = "W"; m.exptime = vp_inf("exposure", 0.25f, 60.f); m.datamin = num("least"); m.datamax = num("most"); }
    if (set & 2) { m.crpix1 = num("x"); m.crpix2 = num("y"); m.crval1 = num("ra"); m.crval2 = num("dec"); m.cdelt1 = num("dx"); m.cdelt2 = num("dy"); m.ctype1 = "RA---TAN"; m.ctype2 = "DEC--TAN"; m.equinox = num("equinox"); m.radesys = "FK5"; }
    if (set > 3) { int one = (int)vp_choice("one", 4); if (one == 0) { m.crpix1 = num("x"); m.cdelt2 = num("dy"); } else if (one == 1) { m.crval1 = num("ra"); m.crval2 = num("dec"); } else if (one == 2) m.cdelt1 = num("dx"); else m.ctype1 = "RA---TAN"; if (set == 5) m.radesys = "FK4"; m.exptime = vp_inf("exposure", 0.25f, 60.f); } set = set > 3 ? 0 : set;
    if (odd & 1) { m.comments = {"first", "second"}; m.history = {"made"}; } if (odd & 2) { m.history = {"made", "changed"}; } double cd = num("custom"); int ci = -7; bool cb = vp_choice("flag", 2); FitsKeyword k; k.key = "GAIN"; k.value = cd; k.comment = "e/adu"; m.custom_keywords.push_back(k); k.key = "BINNING"; k.value = ci; k.comment = ""; m.custom_keywords.push_back(k); k.key = "COOLED"; k.value = cb; k.comment = "yes or no"; m.custom_keywords.push_back(k); k.key = "SITE"; k.value = std::string("Hill"); m.custom_keywords.push_back(k);
    Image<float> im(1, 1, 0.5f); int depth = vp_choice("counts", 2) ? 16 : -32; write_image_fits("/a.fits", im, depth, m); auto [r, n] = read_image_fits("/a.fits"); write_image_fits("/b.fits", r, depth, n); auto [r2, n2] = read_image_fits("/b.fits");
    for (auto* p : {&n, &n2}) { auto& g = *p; double t = 1e-6; auto eq = [&](const std::optional<double>& a, const std::optional<double>& b, const char* l) { vp_check(a.has_value() == b.has_value(), l); if (a && b) vp_check(same(*a, *b, 2e-8), l); };
        vp_check(g.object == m.object && g.telescop == m.telescop && g.instrume == m.instrume && g.observer == m.observer && g.date_obs == m.date_obs && g.origin == m.origin && g.filter == m.filter, "descriptions come back"); if (set & 1 || depth < 0) vp_check(g.bunit == m.bunit, "the unit comes back"); vp_check(same(g.exptime, m.exptime, 130 * t), "the exposure time comes back"); if (set & 1) { eq(g.datamin, m.datamin, "the least value comes back"); eq(g.datamax, m.datamax, "the greatest value comes back"); }
        eq(g.crpix1, m.crpix1, "the reference pixel comes back"); eq(g.crpix2, m.crpix2, "the reference pixel comes back"); eq(g.crval1, m.crval1, "the reference direction comes back"); eq(g.crval2, m.crval2, "the reference direction comes back"); eq(g.cdelt1, m.cdelt1, "the plate scale comes back"); eq(g.cdelt2, m.cdelt2, "the plate scale comes back"); vp_check(g.ctype1 == m.ctype1 && g.ctype2 == m.ctype2, "the projection comes back"); vp_check(g.radesys == m.radesys && same(g.equinox, m.equinox, 2e-8), "the reference frame comes back");
        vp_check(g.comments == m.comments, "comments come back, and no others"); vp_check(g.history == m.history, "the history comes back"); vp_check(g.custom_keywords.size() == 4, "further keywords come back, and no others"); if (g.custom_keywords.size() == 4) { auto& c = g.custom_keywords; vp_check(c[0].key == "GAIN" && c[0].comment == "e/adu" && c[0].value.index() == 1 && same(std::get<1>(c[0].value), cd, 2e-8), "numbers come back"); vp_check(c[1].key == "BINNING" && c[1].value.index() == 2 && std::get<2>(c[1].value) == ci, "whole numbers come back"); vp_check(c[2].key == "COOLED" && c[2].comment == "yes or no" && c[2].value.index() == 3 && std::get<3>(c[2].value) == cb, "flags come back"); vp_check(c[3].key == "SITE" && c[3].value.index() == 0 && std::get<0>(c[3].value) == "Hill", "texts come back"); } }
    vp_check(ff::opened == 0, "files are closed"); vp_cover("metadata");
}
// what was read from one file, with its metadata, is written to another
ENTRY again() { int from = (int[]){8, 16, 32}[vp_choice("from", 3)], to = (int[]){8, 16, 32, -32}[vp_choice("to", 4)]; int sat = (int)vp_choice("saturation", 3); ff::disk.clear(); auto& f = ff::create("/a.fits"); long n[2] = {2, 1}; ff::image(f, from, 2, n); double s = sat == 0 ? full(0, from) : sat == 1 ? 200 : from == 8 ? 255 : 4000; if (sat) { auto c = ff::card("SATURATE", 'F', ""); c.d = s; f.cards.push_back(c); } double a = vp_in("count", 0.0, 100.0); f.px[0] = a; f.px[1] = s; auto [r, m] = read_image_fits("/a.fits"); vp_check(same(r[0], a / s, 1e-6) && same(r[1], 1, 1e-6), "counts are fractions of the range"); write_image_fits("/b.fits", r, to, m); auto [q, k] = read_image_fits("/b.fits"); double step = to < 0 ? 1e-6 : 0.5001 / full(r.sensor_bit_depth(), to) + 1e-6; if (to == 8 && a / s < 1.0 / full(r.sensor_bit_depth(), 8)) step *= 3; vp_check(same(q[1], 1, 1e-6), "saturated pixels stay saturated in another file"); vp_check(same(q[0], a / s, step), "pixels keep their value in another file"); auto [z, k2] = read_image_fits("/b.fits"); write_image_fits("/b.fits", z, to, k2); auto [y, k3] = read_image_fits("/b.fits"); vp_check(same(y[0], q[0], to < 0 ? 1e-6 : 1e-6 + 0.5001 / full(r.sensor_bit_depth(), to)), "writing again changes nothing"); vp_check(k3.custom_keywords.empty() && k3.comments.empty(), "no keywords are added"); vp_cover("again"); }
ENTRY foreign() { int k = (int)vp_choice("kind", 8); ff::disk.clear(); auto& f = ff::create("/a.fits"); long n[4] = {2, 2, 1, 1}; double v = vp_in("v", 0.0, 100.0); if (k < 3) { ff::image(f, -32, 2 + k, n); f.px[0] = v; f.px[3] = 7; auto [r, m] = read_image_fits("/a.fits"); vp_check(r.width() == 2 && r.height() == 2 && r(0, 1) == (float)v && r(1, 0) == 7, "further axes of length one do not matter"); } else if (k < 5) { ff::image(f, k == 3 ? USHORT_IMG : ULONG_IMG, 2, n); double m = k == 3 ? 65535.0 : 4294967295.0; f.px[0] = m - f.bzero; f.px[1] = v - f.bzero; f.px[2] = f.px[3] = -f.bzero; auto [r, md] = read_image_fits("/a.fits"); vp_check(same(r(0, 1), 1, 1e-6) && same(r(1, 1), v / m, 1e-6) && same(r(0, 0), 0, 1e-6), "unsigned counts are fractions of their range"); } else if (k == 5) { n[2] = 2; ff::image(f, -32, 3, n); vp_check(vp_throws([&] { read_image_fits("/a.fits"); }), "images of several planes are refused"); } else if (k == 6) { ff::image(f, -32, 1, n); vp_check(vp_throws([&] { read_image_fits("/a.fits"); }), "lines are refused"); } else vp_check(vp_throws([&] { read_image_fits("/missing.fits"); }), "missing files are refused"); vp_check(ff::opened == 0, "files are closed"); vp_cover("foreign"); }
ENTRY faults() { int k = (int)vp_choice("kind", 4); Image<float> im(2, 1, 0.5f); if (k == 1) im[0] = NAN_; if (k == 2) { int d = (int)vp_int("depth", -70, 70); vp_assume(d != 8 && d != 16 && d != 32 && d != -32 && d != -64); vp_check(vp_throws([&] { write_image_fits("/x.fits", im, d); }) && ff::disk.empty(), "other sample types are refused"); return; } if (k == 3) { Image<float> e; vp_check(vp_throws([&] { write_image_fits("/x.fits", e, 16); }) && ff::disk.empty(), "empty images are refused"); return; }
    FitsMetadata m; m.object = "M"; m.exptime = 2; m.comments = {"c"}; m.crpix1 = 1; write_image_fits("/x.fits", im, 16, m); int total = ff::calls; ff::fail_at = (int)vp_choice("fault", 24); vp_assume(ff::fail_at < total); ff::calls = 0; vp_check(vp_throws([&] { write_image_fits("/y.fits", im, 16, m); }), "a fault while writing is reported"); vp_check(ff::opened == 0, "files are closed after a fault"); int at = ff::fail_at; ff::fail_at = -1; ff::calls = 0; read_image_fits("/x.fits"); int reads = ff::calls; if (at < reads) { ff::fail_at = at; ff::calls = 0; vp_check(vp_throws([&] { read_image_fits("/x.fits"); }), "a fault while reading is reported"); vp_check(ff::opened == 0, "files are closed after a fault"); } vp_cover("faults"); }
