//! entry: aberration time=60
//! entry: aberr_angle time=60
//! entry: aberr_roundtrip time=60
//! entry: superluminal time=40
//! entry: photon time=40
//! entry: planck time=60 opts=--expadd
//! entry: trapezoid time=40
//! entry: spaced time=40
//! entry: magnitude time=60 opts=--expadd
//! entry: vband time=60
//! bound: observer speeds up to 0.9 c; photon wavelengths and black-body wavelengths within [10 nm, 1 mm], temperatures within [10,1e5] K; tabulated integrals with up to six nodes; star magnitudes within [-30,30]
#include "vp.hpp"
#include "huira/core/physics.hpp"
#include "huira/core/spectral_bins.hpp"
using namespace huira;
using V = Vec3<double>;
static const double C = 299792458.0;
static V beta(const char* n) { V b = vp_vec3in<double>(n, -0.9, 0.9); vp_assume(glm::dot(b, b) <= 0.81); return b; }
ENTRY aberration() {
    V u = vp_unit3<double>("u"), b = beta("b"); V a = compute_aberrated_direction(u, b * C);
    vp_check_close(glm::dot(a, a), 1, 1e-6, "an aberrated direction has unit length");
    vp_close3(compute_aberrated_direction(u, V(0)), u, 1e-9, "an observer at rest sees the true direction"); vp_cover("ab");
}
ENTRY aberr_angle() {
    V u = vp_unit3<double>("u"), b = beta("b"); double b2 = glm::dot(b, b); vp_assume(b2 > 1e-4); double ub = glm::dot(u, b); V a = compute_aberrated_direction(u, b * C);
    // cos' = (cos + beta)/(1 + beta cos), with beta cos = u.b
    vp_check_close(glm::dot(a, b) * (1 + ub), ub + b2, 1e-6, "relativistic aberration of the angle to the velocity");
    vp_check_close(glm::dot(a, glm::cross(u, b)), 0, 1e-7, "aberration stays in the plane of sight line and velocity");
    vp_cover("aba");
}
ENTRY aberr_roundtrip() {
    V u = vp_unit3<double>("u"); double s = vp_in("s", -0.9, 0.9); V b(0, 0, s); V a = compute_aberrated_direction(u, b * C); V r = compute_aberrated_direction(a, b * -C);
    vp_close3(r, u, 1e-6, "aberration by the opposite velocity undoes it"); vp_cover("abr");
}
ENTRY superluminal() {
    V u = vp_unit3<double>("u"); V v = vp_vec3in<double>("v", -1e9, 1e9); double q = glm::dot(v, v) / (C * C); vp_assume(q >= 1.0 || q < 0.99);
    vp_check(vp_throws([&] { compute_aberrated_direction(u, v); }) == (q >= 1.0), "exactly the speeds at or above light speed are rejected"); vp_cover("sl");
}
ENTRY photon() {
    double l = vp_in("l", 1e-8, 1e-3); vp_check_close(photon_energy(l) * l * 1e25, 6.62607015e-34 * C * 1e25, 1e-9, "photon energy times wavelength is hc"); vp_check(photon_energy(l) > photon_energy(l * 2), "shorter waves carry more energy"); vp_cover("ph");
}
ENTRY planck() {
    double l = vp_in("l", 1e-8, 1e-3), t = vp_in("t", 10, 1e5); auto r = plancks_law(t, {l, 5e-7}); vp_check(r.size() == 2, "one radiance per wavelength");
    double h = 6.62607015e-34, k = 1.380649e-23; double x = h * C / k / (l * t); vp_assume(x < 300); double e = std::exp(x) - 1; double l5 = l * l * l * l * l;
    vp_check_close(r[0] * e * l5 * 1e16, 2 * h * C * C * 1e16, 1e-6, "black-body radiance follows Planck's law"); vp_check(r[0] > 0, "black-body radiance is positive"); vp_cover("pl");
}
ENTRY trapezoid() {
    std::vector<double> x, y; double a = vp_in("a", -10, 10), k = vp_in("k", -10, 10), c = vp_in("x0", 0, 10); int n = 2 + (int)vp_choice("n", 5);
    double first = c, cur = c; for (int i = 0; i < n; ++i) { x.push_back(cur); y.push_back(a + k * cur); if (i + 1 < n) cur += vp_in("dx", 0.01, 10); }
    vp_check_close(integrate(x, y), a * (cur - first) + k * (cur * cur - first * first) / 2, 1e-6, "the numerical integral of a straight line is exact whatever the spacing");
    double s = 0; std::vector<double> z; for (int i = 0; i < n; ++i) z.push_back(vp_in("z", 0, 10)); vp_check(integrate(x, z) >= -1e-9, "the integral of a non-negative curve is not negative");
    for (int i = 0; i + 1 < n; ++i) s += (x[i + 1] - x[i]) * (z[i + 1] + z[i]) / 2; vp_check_close(integrate(x, z), s, 1e-6, "the numerical integral joins the samples by straight lines"); vp_cover("tr");
}
ENTRY spaced() {
    double a = vp_in("a", -10, 10), b = vp_in("b", -10, 10); int n = 2 + (int)vp_choice("n", 6); auto v = linspace(a, b, (std::size_t)n); vp_check((int)v.size() == n, "as many points as asked for");
    vp_check_close(v[0], a, 0, "spacing starts at the first value"); vp_check_close(v[n - 1], b, 1e-9, "spacing ends at the last value"); for (int i = 1; i < n; ++i) vp_check_close((v[i] - v[i - 1]) * (n - 1), b - a, 1e-9, "points are evenly spaced"); vp_cover("sp");
}
ENTRY magnitude() {
    double m = vp_in("m", -30, 30), d = vp_in("d", 0, 10); double f = v_band_irradiance(m); vp_check(f > 0, "flux is positive"); vp_check(v_band_irradiance(m + d) <= f * (1 + 1e-9), "fainter stars have larger magnitudes");
    vp_check_close(v_band_irradiance(m + 5) * 100 / f, 1, 1e-6, "five magnitudes are a factor of one hundred"); vp_check_close(v_band_irradiance(0) / 8.75e9, 1, 1e-9, "magnitude zero is the reference flux"); vp_cover("mag");
}
ENTRY vband() {
    std::vector<double> l; auto r = johnson_vband_approximation(11, l); vp_check(r.size() == 11 && l.size() == 11, "as many samples as asked for"); uint32_t i = vp_choice("i", 11);
    vp_check(r[i] > 0 && r[i] <= 1, "the response lies in (0,1]"); vp_check_close(l[i] * 1e9, 350 + 50.0 * i, 1e-6, "samples are evenly spaced over 350 to 850 nm");
    float a = vp_inf("a", 0, 1); RGB full = visual_magnitude_to_irradiance<RGB>(2.0), half = visual_magnitude_to_irradiance<RGB>(2.0, RGB(a)); for (int j = 0; j < 3; ++j) { vp_check(full[j] > 0, "a star shines in every band"); vp_check_close(half[j] / full[j], a, 1e-4, "the spectrum scales each band"); }
    RGB fnt = visual_magnitude_to_irradiance<RGB>(7.0); for (int j = 0; j < 3; ++j) vp_check_close(fnt[j] / full[j], 0.01, 1e-5, "five magnitudes dim every band by one hundred"); vp_cover("vb");
}
