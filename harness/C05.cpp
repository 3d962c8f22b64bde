//! entry: elementwise time=40
//! entry: scalar time=40
//! entry: summary time=40
//! entry: validity mode=fp time=60
//! entry: construct time=40
//! entry: layout time=40
//! entry: totals time=40
//! entry: bands time=60
//! entry: band_split time=60
//! entry: rgb time=60
//! entry: rgb_visible time=60
//! entry: data2 time=60
//! entry: data3 time=60
//! entry: data3_any tier=thorough thorough=300
//! entry: data_reject time=60
//! bound: layouts with 1 to 8 bins (uniform, explicit pairs in any order, edges), values within [-1e3,1e3] (all single-precision values for validity), sampled curves with up to three samples
#include "vp.hpp"
#include "huira/core/spectral_bins.hpp"
using namespace huira;
using P3 = SpectralBins<3, 600, 750, 500, 600, 380, 500>;       // same layout as RGB
using G2 = SpectralBins<2, 1000, 1100, 400, 700>;                // pairs, out of order, with a gap
using E3 = SpectralBinEdges<3, 400, 500, 650, 700>;
using U4 = UniformSpectralBins<4, 400, 800>;
template <class S> static S mk(const char* n, double lo = -1000, double hi = 1000) { S s; for (auto& x : s) x = vp_inf(n, (float)lo, (float)hi); return s; }
static void cf(float a, double b, double t, const char* l) { vp_check_close((double)a, b, t, l); }
ENTRY elementwise() {
    E3 a = mk<E3>("a"), b = mk<E3>("b"), c = a + b, d = a - b, e = a * b, n = -a, p = +a, q = a; q += b; E3 r = a; r -= b; E3 s = a; s *= b;
    for (auto& x : b) vp_assume(x > 0.01f || x < -0.01f);
    E3 f = a / b, g = a; g /= b;
    for (int i = 0; i < 3; ++i) {
        cf(c[i], (double)a[i] + b[i], 1e-3, "bins add element by element"); cf(d[i], (double)a[i] - b[i], 1e-3, "bins subtract element by element"); cf(e[i], (double)a[i] * b[i], 1, "bins multiply element by element"); cf(f[i], (double)a[i] / b[i], 1e-1, "bins divide element by element");
        cf(n[i], -(double)a[i], 0, "negation is element by element"); cf(p[i], a[i], 0, "unary plus changes nothing"); cf(q[i], c[i], 0, "compound addition agrees"); cf(r[i], d[i], 0, "compound subtraction agrees"); cf(s[i], e[i], 0, "compound multiplication agrees"); cf(g[i], f[i], 0, "compound division agrees");
    }
    bool same = a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; vp_check((a == b) == same, "equality compares every bin"); vp_check((a != b) == !same, "inequality is the opposite of equality"); vp_cover("el");
}
ENTRY scalar() {
    U4 a = mk<U4>("a", -100, 100); double k = vp_in("k", 0.01, 100); int j = vp_int("j", 1, 20);
    U4 p = a + k, q = k + a, m = a - k, w = k - a, x = a * k, y = k * a, d = a / k, t = a * j, u = a / j;
    for (int i = 0; i < 4; ++i) {
        double v = a[i]; cf(p[i], v + k, 1e-3, "adding a number"); cf(q[i], v + k, 1e-3, "adding to a number"); cf(m[i], v - k, 1e-3, "subtracting a number"); cf(w[i], k - v, 1e-3, "subtracting from a number"); cf(x[i], v * k, 1e-1, "scaling by a number"); cf(y[i], v * k, 1e-1, "scaling a number"); cf(d[i], v / k, 1e-1, "dividing by a number");
        cf(t[i], v * j, 1e-2, "scaling by an integer"); cf(u[i], v / j, 1e-3, "dividing by an integer");
    }
    for (auto& z : a) vp_assume(z > 0.01f || z < -0.01f);
    U4 r = k / a, s = 3 / a; for (int i = 0; i < 4; ++i) { cf(r[i], k / (double)a[i], 1e-1, "dividing a number by bins"); cf(s[i], 3 / (double)a[i], 1e-1, "dividing an integer by bins"); } vp_cover("scalar");
}
ENTRY summary() {
    E3 a = mk<E3>("a"); double x = a[0], y = a[1], z = a[2];
    cf(a.total(), x + y + z, 1e-2, "the total is the sum of all bins"); float m = a.max(), n = a.min();
    for (float v : a) { vp_check(m >= v, "max bounds every bin"); vp_check(n <= v, "min bounds every bin"); }
    vp_check(m == a[0] || m == a[1] || m == a[2], "max is one of the bins"); vp_check(n == a[0] || n == a[1] || n == a[2], "min is one of the bins");
    float g = a.magnitude(); vp_check(g >= 0, "the magnitude is not negative"); vp_check_close((double)g * g, x * x + y * y + z * z, 10, "the magnitude is the Euclidean norm");
    cf(a.integrate() * 1e7f, x + y * 1.5 + z * 0.5, 1e-1, "the integral weights every bin by its width");
    E3 p = mk<E3>("p", 0, 1000), s = p.sqrt(); for (int i = 0; i < 3; ++i) { vp_check(s[i] >= 0, "square roots are not negative"); vp_check_close((double)s[i] * s[i], p[i], 1e-2, "square roots are taken bin by bin"); }
    vp_check_close(a.front(), x, 0, "front is the first bin"); vp_check_close(a.back(), z, 0, "back is the last bin"); vp_check_close(a.at(1), y, 0, "at reads a bin"); vp_check(vp_throws([&] { a.at(3); }), "at rejects an index past the end"); vp_check(E3::size() == 3, "size is the number of bins"); vp_cover("summary");
}
ENTRY validity() {
    E3 a; bool v = true, r = true; for (auto& x : a) { uint32_t b = (uint32_t)vp_bits("x", 32); std::memcpy(&x, &b, 4); bool fin = (b & 0x7f800000u) != 0x7f800000u; bool neg = (b >> 31) && (b << 1); v = v && fin && !neg; r = r && fin && !neg && b != 0x80000000u ? (b <= 0x3f800000u) : (r && b == 0x80000000u); }
    vp_check(a.valid() == v, "valid means every bin is finite and not negative"); vp_check(a.valid_ratio() == r, "a valid ratio means every bin is finite and within [0,1]"); vp_cover("validity");
}
ENTRY construct() {
    float x = vp_inf("x", -1000, 1000), y = vp_inf("y", -1000, 1000), z = vp_inf("z", -1000, 1000);
    E3 d; for (float v : d) vp_check(v == 0, "bins start at zero");
    E3 f(x); for (float v : f) vp_check(v == x, "one value fills every bin");
    E3 l{x, y, z}; vp_check(l[0] == x && l[1] == y && l[2] == z, "as many values as bins set each bin in order");
    std::initializer_list<float> one{x}, two{x, y}, four{x, y, z, x}; E3 i1(one), i2(two), i4(four);
    for (float v : i1) vp_check(v == x, "a list of one value fills every bin"); vp_check(i2[0] == x && i2[1] == y && i2[2] == 0, "a short list leaves the remaining bins at zero"); vp_check(i4[0] == x && i4[1] == y && i4[2] == z, "values beyond the last bin are ignored");
    E3 c = l, e; e = l; vp_check(c == l && e == l, "copies are equal"); e.fill(y); for (float v : e) vp_check(v == y, "fill sets every bin"); l[1] = z; vp_check(c[1] == y, "copies are independent"); vp_cover("construct");
}
template <class S> static void lay(double lo, double hi) {
    for (std::size_t i = 0; i < S::size(); ++i) { Bin b = S::get_bin(i); vp_check(b.min_wavelength < b.max_wavelength, "every bin has positive width"); vp_check_close(b.center_wavelength * 1e9, (b.min_wavelength + b.max_wavelength) * 5e8, 1e-6, "the center is the middle of the bin"); vp_check(b.min_wavelength >= lo * 1e-9 * (1 - 1e-12) && b.max_wavelength <= hi * 1e-9 * (1 + 1e-12), "bins lie within the declared range");
        Bin a = S::get_all_bins()[i]; vp_check(a.min_wavelength == b.min_wavelength && a.max_wavelength == b.max_wavelength, "both bin listings agree");
        for (std::size_t j = i + 1; j < S::size(); ++j) { Bin c = S::get_bin(j); vp_check(c.min_wavelength >= b.max_wavelength || b.min_wavelength >= c.max_wavelength, "bins do not overlap"); } }
}
ENTRY layout() {
    lay<RGB>(380, 750); lay<Visible8>(380, 750); lay<SWIR8>(900, 2500); lay<G2>(400, 1100); lay<E3>(400, 700); lay<U4>(400, 800);
    uint32_t i = vp_choice("i", 8); Bin b = Visible8::get_bin(i); vp_check_close(b.min_wavelength * 1e9, 380 + 46.25 * i, 1e-6, "uniform bins split the range evenly (low edge)"); vp_check_close(b.max_wavelength * 1e9, 380 + 46.25 * (i + 1), 1e-6, "uniform bins split the range evenly (high edge)");
    double es[] = {400, 500, 650, 700}; uint32_t k = vp_choice("k", 3); vp_check_close(E3::get_bin(k).min_wavelength * 1e9, es[k], 1e-6, "edge lists give the low edge"); vp_check_close(E3::get_bin(k).max_wavelength * 1e9, es[k + 1], 1e-6, "edge lists give the high edge");
    double rg[] = {600, 750, 500, 600, 380, 500}; vp_check_close(RGB::get_bin(k).min_wavelength * 1e9, rg[2 * k], 1e-6, "pairs give the low edge"); vp_check_close(RGB::get_bin(k).max_wavelength * 1e9, rg[2 * k + 1], 1e-6, "pairs give the high edge");
    for (std::size_t j = 0; j < 3; ++j) vp_check_close(RGB::photon_energies()[j] * 1e19, 1e19 * 6.62607015e-34 * 299792458.0 / RGB::get_bin(j).center_wavelength, 1e-4, "a bin's photon energy is hc over its center wavelength"); vp_cover("layout");
}
ENTRY totals() {
    float t = vp_inf("t", -1000, 1000); E3 a = E3::from_total(t); G2 g = G2::from_total(t); Visible8 v = Visible8::from_total(t);
    cf(a.total(), t, 1e-2, "a distributed total is preserved"); cf(g.total(), t, 1e-2, "a distributed total is preserved across gaps"); cf(v.total(), t, 1e-2, "a distributed total is preserved over uniform bins");
    cf(a[0], t / 3.0, 1e-3, "each bin gets its width's share (1)"); cf(a[1], t / 2.0, 1e-3, "each bin gets its width's share (2)"); cf(a[2], t / 6.0, 1e-3, "each bin gets its width's share (3)"); cf(g[0], t * 0.25, 1e-3, "gaps get no share"); cf(v[3], t / 8.0, 1e-3, "uniform bins share evenly"); vp_cover("totals");
}
static double ov(double a, double b, double c, double d) { double l = a > c ? a : c, h = b < d ? b : d; return h > l ? h - l : 0; }
ENTRY bands() {
    E3 a = mk<E3>("a", -100, 100); G2 g = mk<G2>("g", -100, 100); double lo = vp_in("lo", 300, 1200), hi = vp_in("hi", 300, 1200); vp_assume(lo <= hi); double s = 1e-9;
    cf(a.integrate_over_band(lo * s, hi * s) * 1e9f, a[0] * ov(400, 500, lo, hi) + a[1] * ov(500, 650, lo, hi) + a[2] * ov(650, 700, lo, hi), 1e-1, "a band integral weights each bin by its overlap with the band");
    cf(g.integrate_over_band(lo * s, hi * s) * 1e9f, g[0] * ov(1000, 1100, lo, hi) + g[1] * ov(400, 700, lo, hi), 1e-1, "a band integral over unordered bins with a gap"); vp_cover("bands");
}
ENTRY band_split() {
    U4 a = mk<U4>("a", -100, 100); double lo = vp_in("lo", 300, 900), m = vp_in("m", 300, 900), hi = vp_in("hi", 300, 900); vp_assume(lo <= m && m <= hi); double s = 1e-9;
    cf(a.integrate_over_band(lo * s, hi * s) * 1e9f, (double)(a.integrate_over_band(lo * s, m * s) * 1e9f) + a.integrate_over_band(m * s, hi * s) * 1e9f, 1e-1, "band integrals add up over adjoining bands"); cf(a.integrate_over_band(100 * s, 2000 * s) * 1e7f, (double)a.integrate() * 1e7, 1e-2, "a band covering everything gives the full integral"); vp_cover("split");
}
ENTRY rgb() {
    RGB c = mk<RGB>("c", 0, 10); RGB same = convert_rgb_to_spectral<RGB>(c); vp_check(same == c, "RGB stays RGB");
    SWIR8 w = convert_rgb_to_spectral<SWIR8>(c); for (float v : w) cf(v, (c[0] + c[1] + c[2]) / 3.0, 1e-4, "outside the visible range every bin is the gray average");
    RGB gray(c[0]); Visible8 v = convert_rgb_to_spectral<Visible8>(gray); for (float x : v) cf(x, c[0], 1e-4, "a gray color gives a flat spectrum"); vp_cover("rgb");
}
using Blue2 = SpectralBins<2, 400, 450, 450, 490>;
ENTRY rgb_visible() {
    RGB c = mk<RGB>("c", 0, 10); Visible8 v = convert_rgb_to_spectral<Visible8>(c); Blue2 b = convert_rgb_to_spectral<Blue2>(c);
    for (int i = 0; i < 8; ++i) { double lo = 380 + 46.25 * i, hi = lo + 46.25; cf(v[i], (c[0] * ov(600, 750, lo, hi) + c[1] * ov(500, 600, lo, hi) + c[2] * ov(380, 500, lo, hi)) / 46.25, 1e-3, "each visible bin is the color averaged over the bin"); }
    for (int i = 0; i < 2; ++i) cf(b[i], c[2], 1e-3, "bins inside the blue range take the blue value"); vp_cover("rgbv");
}
using D2 = SpectralBins<2, 400, 500, 500, 700>;
// mean of the piecewise linear curve through the samples over [a,b] (samples cover it)
static double seg(double x0, double y0, double x1, double y1, double a, double b) { double l = a > x0 ? a : x0, h = b < x1 ? b : x1; if (!(h > l)) return 0; double k = (y1 - y0) / (x1 - x0); double f = y0 + k * (l - x0), g = y0 + k * (h - x0); return (f + g) / 2 * (h - l); }
ENTRY data2() {
    double x0 = vp_in("x0", 300, 900), x1 = vp_in("x1", 300, 900); vp_assume(x1 - x0 > 1); float y0 = vp_inf("y0", 0, 10), y1 = vp_inf("y1", 0, 10);
    D2 d = D2::integrate_over_data({x0, x1}, {y0, y1}); double lo[] = {400, 500}, hi[] = {500, 700};
    for (int i = 0; i < 2; ++i) {
        if (x0 <= lo[i] - 1e-6 && x1 >= hi[i] + 1e-6) cf(d[i], seg(x0, y0, x1, y1, lo[i], hi[i]) / (hi[i] - lo[i]), 1e-3, "a covered bin holds the mean of the sampled line");
        if (x1 < lo[i] - 1e-6 || x0 > hi[i] + 1e-6) cf(d[i], 0, 0, "a bin without data is zero");
        vp_check(d[i] >= -1e-4f && d[i] <= (y0 > y1 ? y0 : y1) + 1e-4f, "bin means stay within the samples");
    }
    vp_cover("data2");
}
static void data3_at(double x1) {
    double x0 = 350, x2 = 800; float y0 = vp_inf("y0", 0, 10), y1 = vp_inf("y1", 0, 10), y2 = vp_inf("y2", 0, 10); 
    D2 d = D2::integrate_over_data({x0, x1, x2}, {y0, y1, y2}); double lo[] = {400, 500}, hi[] = {500, 700};
    for (int i = 0; i < 2; ++i) cf(d[i], (seg(x0, y0, x1, y1, lo[i], hi[i]) + seg(x1, y1, x2, y2, lo[i], hi[i])) / (hi[i] - lo[i]), 1e-3, "a covered bin holds the mean of the sampled curve");
    vp_cover("data3");
}
ENTRY data3() { double xs[] = {380, 440, 499, 500, 620, 700, 750}; data3_at(xs[vp_choice("x1", 7)]); }
ENTRY data3_any() { data3_at(vp_in("x1", 360, 790)); }
ENTRY data_reject() {
    double x0 = vp_in("x0", 300, 900), x1 = vp_in("x1", 300, 900); float y = vp_inf("y", 0, 10);
    vp_check(vp_throws([&] { D2::integrate_over_data({x0, x1}, {y}); }), "sample lists of different lengths are rejected"); vp_check(vp_throws([&] { D2::integrate_over_data({}, {}); }), "empty sample lists are rejected");
    vp_check(vp_throws([&] { D2::integrate_over_data({x0, x1}, {y, y}); }) == !(x0 < x1), "wavelengths must ascend strictly"); vp_check(vp_throws([&] { D2::integrate_over_data({1.0, x0, x1}, {y, y, y}); }) == !(x0 < x1), "wavelengths must ascend strictly anywhere in the list");
    D2 d = D2::integrate_over_data({500.0}, {y}); cf(d[0], 0, 0, "a lone sample at the upper edge gives nothing below it"); vp_cover("reject");
}
