// C27: lights and participating media
//! entry: cone time=60
//! entry: density time=40
//! entry: power time=30
//! entry: absorb time=30
//! entry: phase time=30
//! entry: nesting time=60
//! libs: -lembree4 -lfftw3f
//! bound: one sphere light, any distance and direction; media of three bins, any coefficients and lengths; five crossings of three volumes and nestings to depth eight; exact real arithmetic
#include "vp.hpp"
#include "embree.hpp"
#include "huira/util/logger.hpp"
#include "huira/units/units.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/scene/scene_object.hpp"
#include "huira/assets/lights/sphere_light.hpp"
#include "huira/volumes/density/constant_density_field.hpp"
#include "huira/volumes/scattering/isotropic_scatter.hpp"
#include "huira/volumes/medium_stack.hpp"
using namespace huira; using F3 = Vec3<float>; using S = RGB; using L = SphereLight<S>;
static const double Pi = 3.1415927;
struct Seq : RandomSampler<float> { float a, b; int k = 0; Seq(float x, float y) : RandomSampler<float>(1), a(x), b(y) {} float get_1d() override { return k++ ? b : a; } Vec2<float> get_2d() override { return {a, b}; } };
static S rgb(const char* n, float hi) { F3 v = vp_vec3in<float>(n, 0, hi); S s; for (int k = 0; k < 3; ++k) s[k] = v[k]; return s; }
static L lamp(float r, S l) { return L(units::Meter((double)r), units::SpectralWattsPerMeterSquaredSteradian<S>(l)); }
static Interaction<S> at(F3 p) { Interaction<S> i; i.position = p; i.normal_s = i.normal_g = F3(0, 0, 1); return i; }
static Transform<float> place(F3 p) { Transform<float> t; t.position = p; return t; }
ENTRY cone() {   // samples of a sphere light fill the cone it is seen in, evenly, and end on its surface
    static const float W[5][3] = {{0, 0, 1}, {0, 0, -1}, {0.6f, 0, 0.8f}, {-0.48f, 0.6f, -0.64f}, {0, 1, 0}}; const float* q = W[vp_choice("toward", 5)]; F3 w(q[0], q[1], q[2]), p(1, -2, 3); static const float D[3] = {1.25f, 5.2f, 8.03125f}, RA[3] = {1, 2, 1}; int kd = vp_choice("d", 3); float r = RA[kd], d = D[kd]; S lum = rgb("radiance", 100); L l = lamp(r, lum); float u1 = vp_inf("u1", 0, 0.999f), u2 = vp_inf("u2", 0, 0.75f);
    Seq s(u1, u2), s2(u1, u2 + 0.25f); auto a = l.sample_li(at(p), place(p + w * d), s), b = l.sample_li(at(p), place(p + w * d), s2); vp_check(a && b, "from outside the light is always sampled"); if (!a || !b) return; double cm = std::sqrt((double)d * d - (double)r * r) / d, c = glm::dot(a->wi, w);
    vp_check_close(glm::dot(a->wi, a->wi), 1, 1e-3, "directions have unit length"); vp_check_close(1 - c, u1 * (1 - cm), 1e-4, "samples fill the cone evenly"); vp_check_close(glm::dot(b->wi, w), c, 1e-4, "samples fill the cone evenly"); F3 x = a->wi - w * (float)c, y = b->wi - w * (float)c; vp_check_close(glm::dot(x, y), 0, 1e-4, "azimuths are uniform"); vp_check_close(glm::dot(x, x), glm::dot(y, y), 1e-4, "azimuths are uniform");
    vp_check_close(a->pdf * 2 * Pi * (1 - cm), 1, 1e-3, "the density is one over the solid angle"); F3 h = a->wi * a->distance - w * d; vp_check_close(glm::dot(h, h), r * r, 1e-3, "samples end on the light's surface"); vp_check(a->distance <= d * cm + 1e-4 * d && a->distance > 0, "on its near side"); for (int k = 0; k < 3; ++k) { vp_check_close(a->Li[k], lum[k], 1e-4, "samples carry the light's radiance"); vp_check_close(l.radiance(F3(1), F3(2))[k], lum[k], 1e-4, "samples carry the light's radiance"); } vp_cover("cone");
}
ENTRY density() {   // densities and irradiance of any direction and place
    F3 w = vp_unit3<float>("toward"), p(1, -2, 3); static const float D[5] = {1.25f, 2.6f, 8.03125f, 0.5f, 0}; int kd = vp_choice("d", 5); float d = D[kd]; S lum = rgb("radiance", 100); L l = lamp(1, lum); Transform<float> t = place(p + w * d); Seq s(0.5f, 0.5f); S e = l.irradiance_at(p, t); static const float C[4] = {1, 0.28f, 0, -1};
    if (d <= 1) { vp_check(!l.sample_li(at(p), t, s), "inside the light nothing is sampled"); vp_check(l.pdf_li(at(p), t, w) == 0, "inside the light nothing is sampled"); for (int k = 0; k < 3; ++k) vp_check(e[k] == 0, "inside the light nothing is received"); }
    else { double cm = std::sqrt((double)d * d - 1) / d; F3 v = vp_unit3<float>("v"); double c = glm::dot(v, w); vp_assume_exact(c <= 1 && c >= -1); vp_assume(c - cm >= 1e-3 || c - cm <= -1e-3); float q = l.pdf_li(at(p), t, v); if (c > cm) vp_check_close(q * 2 * Pi * (1 - cm), 1, 1e-3, "the density is one over the solid angle"); else vp_check(q == 0, "directions past the light have none"); for (int k = 0; k < 3; ++k) vp_check_close(e[k] * d * d, lum[k] * Pi, 1e-3, "the irradiance falls with the square of the distance"); } vp_cover("density");
}
ENTRY power() {   // radiance follows from power and surface
    float r = vp_inf("r", 0.1f, 100), w = vp_inf("w", -1, 1000); int kind = vp_choice("kind", 3); S p = rgb("p", 100); try { L* l = kind == 0 ? new L(units::Meter((double)r), units::Watt((double)w)) : kind == 1 ? new L(units::Meter((double)r), units::SpectralWatts<S>(p)) : new L(units::Meter((double)r), units::SpectralWattsPerMeterSquaredSteradian<S>(p)); S q = l->radiance(F3(0), F3(0)); double a = Pi * (4 * Pi * r * r), sum = 0; vp_check_close(l->radius().to_si(), r, 1e-4, "the radius is the one given");
        for (int k = 0; k < 3; ++k) { sum += q[k]; if (kind == 1) vp_check_close(q[k] * a, p[k], 1e-3, "spectral power is spread over the surface and hemisphere"); if (kind == 2) vp_check(q[k] == p[k], "the radiance is the one given"); } if (kind == 0) { vp_check(w >= 0, "negative power is rejected"); vp_check_close(sum * a, w, 1e-3, "all bins together carry the total power"); } } catch (const std::exception&) { vp_check(kind == 0 && w < 0, "valid lights are accepted"); } vp_cover("powered");
}
static std::shared_ptr<Medium<S>> medium(S a, S s) { return std::make_shared<Medium<S>>(std::make_shared<ConstantDensityField<S>>(a, s), std::make_shared<IsotropicPhaseFunction<S>>()); }
ENTRY absorb() {   // attenuation
    S a = rgb("a", 2), s = rgb("s", 2); auto m = medium(a, s); Ray<S> ray(F3(1, 2, 3), F3(0.6f, 0, 0.8f)); float t = vp_inf("t", 0, 5), u = vp_inf("t2", 0, 5), xi = vp_inf("xi", 0, 0.999f); Seq q(xi, 0); S T = m->evaluate_transmittance(ray, t, q), U = m->evaluate_transmittance(ray, u, q), V = m->evaluate_transmittance(ray, t + u, q), Z = m->evaluate_transmittance(ray, -t, q); double e = 0; for (int k = 0; k < 3; ++k) e += a[k] + s[k]; e /= 3;
    auto pr = m->get_properties(F3(9)); for (int k = 0; k < 3; ++k) { vp_check_close(T[k], std::exp(-((double)a[k] + s[k]) * t), 1e-7, "light is attenuated exponentially"); vp_check(T[k] <= 1 && T[k] > 0, "media never amplify"); vp_check_close(Z[k], 1, 0, "nothing is lost over no distance"); vp_check_close(pr.extinction()[k], a[k] + s[k], 1e-4, "extinction is absorption plus scattering"); vp_check(pr.absorption[k] == a[k] && pr.scattering[k] == s[k], "media keep their coefficients"); }
    auto i = m->sample_free_path(ray, q); if (e > 1e-6 + 1e-9) vp_check(i.has_value(), "scattering somewhere"); if (e < 1e-6 - 1e-9) vp_check(!i, "vacuum is left"); if (i) { vp_check_close(i->t * e, -std::log(1.0f - xi), 1e-3, "free paths are exponential in the mean extinction"); vp_close3(i->p, ray.at(i->t), 1e-4, "the event is on the ray"); vp_close3(i->wo, -ray.direction(), 1e-5, "seen back along the ray"); vp_check(i->is_valid() && i->phase_function == &m->get_phase_function(), "with the medium's phase function"); vp_check_close(i->properties.extinction()[1], a[1] + s[1], 1e-4, "and its properties"); }
    float n = vp_inf("neg", -1, 1); int j = vp_choice("bin", 3); S bad{0.5f}; bad[j] = n; bool abs = vp_choice("which", 2); vp_check(vp_throws([&] { ConstantDensityField<S>(abs ? bad : S{0.1f}, abs ? S{0.1f} : bad); }) == (n < 0), "exactly negative coefficients are rejected"); vp_cover("absorbed");
}
ENTRY phase() { IsotropicPhaseFunction<S> f; float u1 = vp_inf("u1", 0.0001f, 0.9999f), u2 = vp_inf("u2", 0, 1); Seq q(u1, u2); F3 wo = vp_unit3<float>("wo"); auto s = f.sample(wo, q); vp_check_close(glm::dot(s.wi, s.wi), 1, 1e-4, "directions have unit length"); vp_check_close(1 - s.wi.z, 2 * u1, 1e-4, "scattering is uniform over the sphere"); double z = s.wi.z, rr = std::sqrt(1 - z * z); vp_check_close(s.wi.x, rr * std::cos(2.0f * PI<float>() * u2), 1e-4, "scattering is uniform over the sphere"); vp_check_close(s.wi.y, rr * std::sin(2.0f * PI<float>() * u2), 1e-4, "scattering is uniform over the sphere"); vp_check_close(s.p * 4 * Pi, 1, 1e-4, "its density is one over the full sphere"); vp_check_close(f.evaluate(wo, s.wi), s.p, 1e-6, "evaluation and density agree"); vp_cover("phase"); }
ENTRY nesting() {   // the active medium is that of the volume entered last and not yet left
    auto m0 = medium(S{1}, S{0}), m1 = medium(S{2}, S{0}); Primitive<S> p[4]; p[0].medium = m0; p[1].medium = m1; p[2].medium = m0; MediumStack<S> st; const Primitive<S>* in[16]; int n = 0;
    if (vp_choice("deep", 2)) { Primitive<S> d[8]; for (int i = 0; i < 8; ++i) { d[i].medium = i % 2 ? m0 : m1; st.toggle(&d[i]); vp_check(st.top() == d[i].medium.get() && st.size() == (size_t)i + 1, "nested media"); } int out = vp_choice("out", 8); st.toggle(&d[out]); vp_check(st.size() == 7 && st.top() == d[out == 7 ? 6 : 7].medium.get(), "leaving one of many"); for (int i = 7; i >= 0; --i) if (i != out) st.toggle(&d[i]); vp_check(st.is_empty(), "all left"); return; }
    for (int s = 0; s < 5; ++s) { int k = vp_choice("cross", 5); const Primitive<S>* x = k == 4 ? nullptr : &p[k]; st.toggle(x); if (k < 3) { int j = 0; while (j < n && in[j] != x) ++j; if (j == n) in[n++] = x; else { for (; j + 1 < n; ++j) in[j] = in[j + 1]; --n; } } vp_check(st.size() == (size_t)n && st.is_empty() == (n == 0), "as many media as volumes around"); vp_check(st.top() == (n ? in[n - 1]->medium.get() : nullptr), "the innermost volume's medium is active"); } vp_cover("nested");
}
