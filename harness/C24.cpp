// C24: reflection models
//! entry: law_simple time=40
//! entry: law_mcewen time=40
//! entry: law_hapke time=40
//! entry: law_cook time=40
//! entry: recip_simple time=40
//! entry: recip_mcewen time=40
//! entry: recip_hapke time=40
//! entry: recip_cook time=40
//! entry: horizon_simple time=120
//! entry: horizon_mcewen time=40
//! entry: horizon_hapke time=40
//! entry: horizon_cook time=40
//! entry: sampling_simple time=40
//! entry: sampling_mcewen time=40
//! entry: sampling_hapke time=40
//! entry: cook_sampling time=40
//! entry: pass_through time=40
//! bound: all unit directions, albedo, roughness and metallic in [0,1], Hapke parameters in their ranges; surface frames: identity and one tilted frame; one and three bins; exact real arithmetic
#include "vp.hpp"
#include "huira/util/logger.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/scene/scene_object.hpp"
#include "huira/materials/bsdfs/lambertian_bsdf.hpp"
#include "huira/materials/bsdfs/oren_nayar_bsdf.hpp"
#include "huira/materials/bsdfs/lommel_seeliger_bsdf.hpp"
#include "huira/materials/bsdfs/mcewen_bsdf.hpp"
#include "huira/materials/bsdfs/hapke_bsdf.hpp"
#include "huira/materials/bsdfs/cook_torrance_bsdf.hpp"
#include "huira/materials/bsdfs/null_bsdf.hpp"
using namespace huira; using F3 = Vec3<float>; using S = RGB; using P = ShadingParams<S>; using I = Interaction<S>;
static float hh, hB, hb, hc;
static BSDF<S>* model(int k) { switch (k) { case 0: return new LambertianBSDF<S>(); case 1: return new OrenNayarBSDF<S>(); case 2: return new LommelSeeligerBSDF<S>(); case 3: return new McEwenBSDF<S>(); case 4: hh = vp_inf("h", 0, 1); hB = vp_inf("B0", 0, 1); { int q = vp_choice("phase", 3); hb = q == 0 ? 0.f : q == 1 ? 0.5f : 0.25f; hc = q == 1 ? 0.25f : 1.f; } return new HapkeBSDF<S>(hh, hB, hb, hc); default: return new CookTorranceBSDF<S>(); } }
static I frame() { I i; i.position = F3(0); i.normal_s = F3(0, 0, 1); i.tangent = F3(1, 0, 0); i.bitangent = F3(0, 1, 0); if (vp_bool("tilted")) { i.normal_s = F3(0.48f, 0.6f, 0.64f); i.tangent = F3(0.8f, 0, -0.6f); i.bitangent = F3(-0.36f, 0.8f, -0.48f); } i.normal_g = i.normal_s; return i; }
static F3 world(const I& i, const F3& l) { return i.tangent * l.x + i.bitangent * l.y + i.normal_s * l.z; }
static P params(bool rough = false) { P p; for (int k = 0; k < 3; ++k) p.albedo[k] = k ? 0.5f : vp_inf("albedo", 0, 1); static const float RO[3] = {1, 0.5f, 0.1f}; p.roughness = rough ? RO[vp_choice("rough", 3)] : vp_inf("roughness", 0, 1); p.metallic = vp_inf("metallic", 0, 1); return p; }
static const float W[4][3] = {{0, 0, 1}, {0.6f, 0, 0.8f}, {0.36f, -0.48f, 0.8f}, {-0.36f, 0.864f, 0.352f}};
static F3 dirs() { const float* w = W[vp_choice("wo", 4)]; return F3(w[0], w[1], w[2]); }
static F3 arc() { static const float E[4][2] = {{1, 0}, {-0.6f, 0.8f}, {0.28f, -0.96f}, {-0.8f, -0.6f}}; const float* e = E[vp_choice("plane", 4)]; float t = vp_inf("t", -3, 3), q = 1 + t * t; return F3(2 * t / q * e[0], 2 * t / q * e[1], (1 - t * t) / q); }   // directions in four planes
static F3 some() { static const float V[6][3] = {{0, 0, 1}, {0.8f, 0, 0.6f}, {-0.48f, 0.36f, 0.8f}, {-0.6f, -0.64f, 0.48f}, {0.28f, 0.9216f, 0.2688f}, {-0.8f, 0.6f, -0.0f}}; int k = vp_choice("wi", 6); return k < 5 ? F3(V[k][0], V[k][1], V[k][2]) : F3(0.64f, 0.48f, -0.6f); }
static void cauchy(const F3& a, const F3& b) { float q = glm::dot(a, b); vp_assume_exact(q <= 1); if (a.z > 0 && b.z > 0) vp_assume_exact(q > -1); else vp_assume_exact(q >= -1); }   // true of unit vectors; spares the solver the inequality
static const double Pi = 3.1415927, IPi = 0.31830987;   // the single-precision constants
static double hg(double g, double c) { return (1 - g * g) / std::pow(1 + g * g - 2 * g * c, 1.5); }
static void law(int k) {   // each model is the published law
    BSDF<S>* b = model(k); I i = frame(); P p = params(); F3 wo = k == 0 || k == 2 ? vp_unit3<float>("wo") : k == 5 ? F3(0, 0, 1) : dirs(), wi; if (k == 5) { static const float ME[3] = {0, 0.5f, 1}; p.metallic = ME[vp_choice("metal", 3)]; static const float RO[3] = {1, 0.5f, 0.1f}, Q[5][6] = {{0, 0, 1, 0, 0, 1}, {0, 0, 1, 0.96f, 0, 0.28f}, {0.6f, 0, 0.8f, -0.6f, 0, 0.8f}, {0.6f, 0, 0.8f, 0.6f, 0, 0.8f}, {0.6f, 0, 0.8f, -0.2928f, 0.768f, 0.5696f}}; p.roughness = RO[vp_choice("rough", 3)]; const float* q = Q[vp_choice("pair", 5)]; wo = F3(q[0], q[1], q[2]); wi = F3(q[3], q[4], q[5]); if (vp_choice("swap", 2)) std::swap(wo, wi); } else if (k != 1) wi = vp_unit3<float>("wi"); else if (vp_bool("every roughness")) wi = some(); else { wi = arc(); static const float RO[3] = {0, 0.5f, 1}; p.roughness = RO[vp_choice("rough", 3)]; } vp_assume(wo.z >= 1e-3f && wi.z >= 1e-3f); cauchy(wo, wi); double m0 = wi.z, m = wo.z, a = p.albedo[0], ca = glm::dot(wi, wo), f = 0; S r = b->eval(world(i, wo), world(i, wi), i, p);
    switch (k) {
    case 0: f = a * IPi; break;
    case 1: { double s = p.roughness * 1.5707964, s2 = s * s, d = ca - m0 * m, A = 1 - 0.5 * s2 / (s2 + 0.33), B = 0.45 * s2 / (s2 + 0.09); f = a * IPi * (A + (d > 0 ? B * d / (m0 > m ? m0 : m) : 0)); break; }
    case 2: f = a / (4 * Pi * (m0 + m)); break;
    case 3: { double be = std::exp(-std::acos((float)ca) * (3.0f * std::numbers::inv_pi_v<float>)); f = a * ((1 - be) * IPi + be / (4 * Pi * (m0 + m))); break; }
    case 4: { double t = std::tan(std::acos(ca) / 2), B = hh > 0 ? hB / (1 + t / hh) : 0, g = std::sqrt(1 - a), H0 = (1 + 2 * m0) / (1 + 2 * m0 * g), H = (1 + 2 * m) / (1 + 2 * m * g), ph = (1 - hc) * hg(-hb, ca) + hc * hg(hb, ca); f = a / (4 * Pi * (m0 + m)) * ((1 + B) * ph + H0 * H - 1); break; }
    default: { double al = p.roughness * p.roughness, a2 = al * al, e = 1 + ca, nh2 = (m0 + m) * (m0 + m) / (2 * e), hw = std::sqrt(e / 2), d = nh2 * (a2 - 1) + 1, G = 4 / ((1 + std::sqrt(1 + a2 * (1 - m * m) / (m * m))) * (1 + std::sqrt(1 + a2 * (1 - m0 * m0) / (m0 * m0)))), f0 = a * p.metallic + 0.04 * (1 - p.metallic), F = f0 + (1 - f0) * std::pow(1 - hw, 5); f = a * (1 - p.metallic) * IPi + F * a2 / (Pi * d * d) * G / (4 * m * m0); } }
    vp_check_close(r[0], f, 1e-3, "the model follows its law"); vp_cover("law");
}
ENTRY law_simple() { law(vp_choice("model", 3)); }
ENTRY law_mcewen() { law(3); }
ENTRY law_hapke() { law(4); }
ENTRY law_cook() { law(5); }
static void recip(int k) {
    BSDF<S>* b = model(k); I i = frame(); P p = params(k == 5); F3 wo = k == 0 || k == 2 ? vp_unit3<float>("wo") : dirs(), wi = vp_unit3<float>("wi"); vp_assume(wo.z >= 1e-3f && wi.z >= 1e-3f); cauchy(wo, wi); wo = world(i, wo); wi = world(i, wi);
    S r = b->eval(wo, wi, i, p), q = b->eval(wi, wo, i, p); for (int j = 0; j < 3; ++j) vp_check_close(r[j], q[j], 1e-3, "reflection is reciprocal"); vp_cover("reciprocal");
}
ENTRY recip_simple() { recip(vp_choice("model", 3)); }
ENTRY recip_mcewen() { recip(3); }
ENTRY recip_hapke() { recip(4); }
ENTRY recip_cook() { recip(5); }
static void horiz(int k) {   // no light from below the surface; never negative
    BSDF<S>* b = model(k); I i = frame(); P p = params(k == 5); if (k > 3) { static const float AL[2] = {0, 0.75f}, ME[2] = {1, 0.25f}; int ks = vp_choice("kind", 3); p.albedo = S{AL[ks > 0]}; p.metallic = ME[ks > 1]; if (k == 4) p.roughness = 1; } if (k == 4) b = new HapkeBSDF<S>(hh = 0.5f, hB = 1, hb, hc); F3 wo = k == 0 || k == 2 ? vp_unit3<float>("wo")   : dirs(), wi = k > 3 ? some() : vp_unit3<float>("wi"); if ((k > 2 || k == 1) && vp_bool("below")) wo = -wo; vp_assume(wo.z >= 1e-3f || (k > 0 && wo.z <= -1e-3f)); vp_assume(wi.z >= 1e-3f || wi.z <= -1e-3f); cauchy(wo, wi); S r = b->eval(world(i, wo), world(i, wi), i, p); float q = b->pdf(world(i, wo), world(i, wi), i, p);
    if (wi.z < 0 || wo.z < 0) { for (int j = 0; j < 3; ++j) vp_check(r[j] == 0, "nothing is reflected from or to below the surface"); vp_check(q == 0, "nothing is sampled there"); }
    else { for (int j = 0; j < 3; ++j) vp_check(r[j] >= 0, "reflection is not negative"); vp_check(q > 0, "every direction above the surface can be sampled"); } vp_cover("horizon");
}
ENTRY horizon_simple() { horiz(vp_choice("model", 3)); }
ENTRY horizon_mcewen() { horiz(3); }
ENTRY horizon_hapke() { horiz(4); }
ENTRY horizon_cook() { horiz(5); }
static void samp(int k) {   // a sample's direction, density and weight agree with evaluation
    BSDF<S>* b = model(k); I i = frame(); P p = params(); F3 lo(0.6f, 0, 0.8f), wo; if (vp_bool("grazing")) lo = F3(0, -0.96f, 0.28f); wo = world(i, lo); float u1 = vp_inf("u1", 0, 0.999f), u2 = vp_inf("u2", 0, 1); BSDFSample<S> s = b->sample(wo, i, p, u1, u2);
    vp_check_close(glm::dot(s.wi, s.wi), 1, 1e-3, "sampled directions have unit length"); float c = glm::dot(s.wi, i.normal_s); vp_check(s.is_valid() && c > 0 && !s.is_delta, "samples lie above the surface"); S f = b->eval(wo, s.wi, i, p); float q = b->pdf(wo, s.wi, i, p); vp_check_close(s.pdf, q, 1e-4, "the density of a sample is that of its direction");
    for (int j = 0; j < 3; ++j) vp_check_close(s.value[j] * s.pdf, f[j] * c, 1e-3, "the weight is reflectance times cosine over density"); vp_check_close(1 - c * c, u1, 1e-3, "samples are cosine-distributed"); vp_check_close(glm::dot(s.wi, i.tangent), std::sqrt((double)u1) * std::cos(2.0f * std::numbers::pi_v<float> * u2), 1e-3, "all azimuths alike"); vp_check_close(glm::dot(s.wi, i.bitangent), std::sqrt((double)u1) * std::sin(2.0f * std::numbers::pi_v<float> * u2), 1e-3, "all azimuths alike"); vp_cover("sampled");
}
ENTRY sampling_simple() { samp(vp_choice("model", 3)); }
ENTRY sampling_mcewen() { samp(3); }
ENTRY sampling_hapke() { samp(4); }
ENTRY cook_sampling() {
    BSDF<S>* b = new CookTorranceBSDF<S>(); I i = frame(); P p = params(); int kw = vp_choice("wo", 2); const float* w = W[kw]; F3 wo = world(i, F3(w[0], w[1], w[2])); static const float RO[2] = {1, 0.25f}, ME[2] = {0.5f, 0}; int ks = kw ? 0 : vp_choice("kind", 2); p.albedo = S{vp_inf("albedo2", 0, 1)}; p.roughness = RO[ks]; p.metallic = ME[ks];
    static const float U1[2][5] = {{0, 0.27f, 0.48f, 0.84f, 0.91f}, {0, 0.18f, 0.32f, 0.68f, 0.82f}}; float u1, u2 = 0.25f * vp_choice("u2", 4); u1 = U1[ks][vp_choice("u1", 5)]; BSDFSample<S> s = b->sample(wo, i, p, u1, u2); if (!s.is_valid()) { for (int j = 0; j < 3; ++j) vp_check(s.value[j] == 0, "an invalid sample carries nothing"); return; }
    vp_check_close(glm::dot(s.wi, s.wi), 1, 1e-3, "sampled directions have unit length"); float c = glm::dot(s.wi, i.normal_s); vp_check(c > 0, "samples lie above the surface"); S f = b->eval(wo, s.wi, i, p); vp_check_close(s.pdf, b->pdf(wo, s.wi, i, p), 1e-4, "the density of a sample is that of its direction");
    F3 lw(w[0], w[1], w[2]), li = sampling::world_to_local(s.wi, i.tangent, i.bitangent, i.normal_s); double sp = 0.5 * (1 + (double)p.metallic), al = p.roughness * p.roughness, a2 = al * al, m = w[2], m0 = li.z, e = 1 + glm::dot(lw, li), nh2 = (m0 + m) * (m0 + m) / (2 * e), d = nh2 * (a2 - 1) + 1, G1 = 2 / (1 + std::sqrt(1 + a2 * (1 - m * m) / (m * m))); vp_check_close(s.pdf, sp * a2 / (Pi * d * d) * G1 / (4 * m) + (1 - sp) * m0 * IPi, 1e-3, "the density is the mixture of both lobes'"); bool spec = u1 < (float)sp; F3 want = spec ? glm::reflect(-lw, sampling::ggx_vndf_sample(lw, p.roughness, u1 / (float)sp, u2).half_vector) : sampling::cosine_hemisphere((u1 - (float)sp) / (1 - (float)sp), u2).direction; vp_close3(li, want, 1e-3, "each lobe gets its share of the samples"); for (int j = 0; j < 3; ++j) vp_check_close(s.value[j] * s.pdf, f[j] * c, 1e-3, "the weight is reflectance times cosine over density"); vp_cover("sampled");
}
ENTRY pass_through() { NullBSDF<S> b; I i = frame(); P p = params(); F3 wo = vp_unit3<float>("wo"), wi = vp_unit3<float>("wi"); BSDFSample<S> s = b.sample(wo, i, p, vp_inf("u1", 0, 1), vp_inf("u2", 0, 1)); vp_check(s.is_delta && s.is_valid() && s.wi == -wo && s.value[0] == 1 && s.value[1] == 1 && s.value[2] == 1, "light passes unchanged"); vp_check(b.pdf(wo, wi, i, p) == 0 && b.eval(wo, wi, i, p)[0] == 0, "no other direction is reflected"); vp_cover("passed"); }
