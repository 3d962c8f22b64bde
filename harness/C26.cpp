// C26: materials
//! entry: values time=40
//! entry: normals time=60
//! entry: settings time=60
//! entry: models time=40
//! libs: -lfftw3f
//! bound: all pixels, factors, texture coordinates in [0,1], vertex colours and shading frames; textures of 1x1 and 2x2 pixels; sequences of three settings per parameter
#include "vp.hpp"
#include "huira/util/logger.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/scene/scene_object.hpp"
#include "huira/images/image.hpp"
#include "huira/materials/material.hpp"
#include "huira/materials/bsdfs/lambertian_bsdf.hpp"
#include "huira/materials/bsdfs/cook_torrance_bsdf.hpp"
#include "huira/materials/bsdfs/null_bsdf.hpp"
using namespace huira; using F3 = Vec3<float>; using S = RGB; using M = Material<S>; using I = Interaction<S>; template <class T> using IP = std::shared_ptr<Image<T>>;
template <class T> static IP<T> solid(T v) { return std::make_shared<Image<T>>(1, 1, v); }
struct Set { IP<S> alb = solid<S>(S{1}); IP<float> alpha = solid(1.f), met = solid(1.f), rough = solid(1.f); IP<F3> nor = solid(F3(0, 0, 1)); IP<S> tr = solid<S>(S{1}), em = solid<S>(S{1}); };
static Set D; static std::shared_ptr<M> make(std::shared_ptr<BSDF<S>> b) { return std::make_shared<M>(b, D.alb, D.alpha, D.met, D.rough, D.nor, D.tr, D.em); }
static std::shared_ptr<BSDF<S>> full() { return std::make_shared<CookTorranceBSDF<S>>(); }
static I hit() { I i; i.position = F3(1, 2, 3); i.normal_g = F3(0, 0, 1); i.normal_s = F3(0, 0, 1); i.tangent = F3(1, 0, 0); i.bitangent = F3(0, 1, 0); i.wo = F3(0, 0, 1); i.uv = Vec2<float>(vp_inf("u", 0, 1), vp_inf("v", 0, 1)); return i; }
static S rgb(const char* n) { F3 v = vp_vec3in<float>(n, 0, 1); S s; for (int k = 0; k < 3; ++k) s[k] = v[k]; return s; }
ENTRY values() {   // each parameter is its texture at the hit times its factor
    auto m = make(full()); I i = hit(); int slot = vp_choice("slot", 6); S f = rgb("f"), want; float g = vp_inf("g", 0.01f, 2), w = 0; i.vertex_albedo = rgb("vertex");
    auto img = std::make_shared<Image<S>>(2, 2); auto one = std::make_shared<Image<float>>(2, 2); for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) { S p; for (int k = 0; k < 3; ++k) p[k] = k ? 0.25f * x + 0.5f * y : vp_inf("p", 0, 1); (*img)(x, y) = p; (*one)(x, y) = vp_inf("q", 0, 1); }
    S at = img->sample_bilinear(i.uv.x, i.uv.y); float a1 = one->sample_bilinear(i.uv.x, i.uv.y);
    switch (slot) { case 0: m->set_albedo(img); m->set_albedo_factor(f); break; case 1: m->set_emissive_image(img); m->set_emissive_factor(f); break; case 2: m->set_transmission_image(img); m->set_transmission_factor(f); break; case 3: m->set_alpha(one); m->set_alpha_factor(g); break; case 4: m->set_metallic_image(one); m->set_metallic_factor(g); break; default: m->set_roughness_image(one); m->set_roughness_factor(g); }
    auto e = m->evaluate(i); const auto& p = e.params; for (int k = 0; k < 3; ++k) { vp_check_close(p.albedo[k], (slot == 0 ? at[k] * f[k] : 1) * i.vertex_albedo[k], 1e-4, "the albedo is texture times factor times vertex colour"); vp_check_close(p.emission[k], slot == 1 ? at[k] * f[k] : 0, 1e-4, "the emission is texture times factor, none unless set"); vp_check_close(p.transmission[k], slot == 2 ? at[k] * f[k] : 0, 1e-4, "the transmission is texture times factor, none unless set"); }
    vp_check_close(p.opacity, slot == 3 ? a1 * g : 1, 1e-4, "the opacity is texture times factor, opaque unless set"); vp_check_close(p.metallic, slot == 4 ? a1 * g : 0, 1e-4, "metallic is texture times factor"); vp_check_close(p.roughness, slot == 5 ? a1 * g : 1, 1e-4, "roughness is texture times factor");
    vp_check(e.isect.position == i.position && e.isect.normal_g == i.normal_g && e.isect.uv == i.uv && e.isect.wo == i.wo, "the hit itself is unchanged"); vp_close3(e.isect.normal_s, i.normal_s, 1e-5, "without a normal texture the normal is unchanged"); vp_cover("values");
}
ENTRY normals() {   // normal textures are read in the tangent frame; the frame stays orthonormal whatever the tangent
    auto m = make(full()); I i = hit(); int kind = vp_choice("tangent", 4); F3 t(0.8f, 0, -0.6f), b(-0.36f, 0.8f, -0.48f), n(0.48f, 0.6f, 0.64f), ts(0, 0, 1); if (kind == 1 || kind == 3) n = vp_unit3<float>("n"); i.normal_s = i.normal_g = n; float f = vp_inf("factor", 0, 2); if (kind == 0) { ts = vp_unit3<float>("ts"); vp_assume(ts.z >= 0.1f); } else if (kind == 1) ts = F3(0.6f, 0, 0.8f);
    if (kind == 0) { i.tangent = t; i.bitangent = b; } else if (kind == 1) { i.tangent = i.bitangent = F3(0); } else if (kind == 2) { float s = vp_inf("skew", -0.5f, 0.5f); i.tangent = t + n * s; i.bitangent = b; f = 0; } else { i.tangent = n; i.bitangent = b; f = 0; }
    m->set_normal_image(solid(ts)); m->set_normal_factor(f); I o = m->evaluate(i).isect; F3 q = o.normal_s;
    vp_check_close(glm::dot(q, q), 1, 1e-3, "normals have unit length"); if (kind == 0) { vp_check_close(glm::dot(q, t) * ts.z, f * ts.x * glm::dot(q, n), 1e-3, "the texture's normal, scaled, in the tangent frame"); vp_check_close(glm::dot(q, b) * ts.z, f * ts.y * glm::dot(q, n), 1e-3, "the texture's normal, scaled, in the tangent frame"); vp_check(glm::dot(q, n) > 0, "perturbed normals stay on their side"); } else vp_close3(q, n, 1e-4, "without a usable tangent the normal is unchanged");
    vp_check_close(glm::dot(o.tangent, o.tangent), 1, 1e-3, "tangents have unit length"); vp_check_close(glm::dot(o.tangent, q), 0, 1e-3, "tangents are perpendicular to the normal"); vp_close3(o.bitangent, glm::cross(q, o.tangent), 1e-3, "the frame is right-handed"); if (kind == 0 || kind == 2) { vp_check_close(glm::dot(o.tangent, glm::cross(q, i.tangent)), 0, 1e-3, "tangents keep their direction"); vp_check(glm::dot(o.tangent, i.tangent) >= 0, "tangents keep their direction"); } vp_cover("normals");
}
ENTRY settings() {   // the parameter is what the last settings say
    auto m = make(full()); I i = hit(); i.uv = Vec2<float>(0.5f, 0.5f); int slot = vp_choice("slot", 7); bool zero = slot == 2 || slot == 4 || slot == 5; float pix = 1, fac = zero ? 0 : 1; bool alpha = false;
    for (int s = 0; s < 3; ++s) switch (vp_choice("op", 4)) {
        case 0: { pix = vp_inf("pix", 0, 1); switch (slot) { case 0: m->set_albedo(solid<S>(S{pix})); break; case 1: m->set_alpha(solid(pix)); break; case 2: m->set_metallic_image(solid(pix)); break; case 3: m->set_roughness_image(solid(pix)); break; case 4: m->set_transmission_image(solid<S>(S{pix})); break; case 5: m->set_emissive_image(solid<S>(S{pix})); break; default: m->set_normal_image(solid(F3(0.6f, 0, 0.8f))); } if (zero && fac == 0) fac = 1; break; }
        case 1: { fac = vp_inf("fac", 0.1f, 1); goto factor; }
        case 2: { fac = 0; factor: switch (slot) { case 0: m->set_albedo_factor(S{fac}); break; case 1: m->set_alpha_factor(fac); break; case 2: m->set_metallic_factor(fac); break; case 3: m->set_roughness_factor(fac); break; case 4: m->set_transmission_factor(S{fac}); break; case 5: m->set_emissive_factor(S{fac}); break; default: m->set_normal_factor(fac); } break; }
        default: pix = 1; fac = zero ? 0 : 1; switch (slot) { case 0: m->reset_albedo(); break; case 1: m->reset_alpha(); break; case 2: m->reset_metallic(); break; case 3: m->reset_roughness(); break; case 4: m->reset_transmission(); break; case 5: m->reset_emissive(); break; default: m->reset_normal(); }
            if (slot == 6) vp_close3(m->evaluate(i).isect.normal_s, F3(0, 0, 1), 1e-5, "a reset material is unperturbed"); }
    auto e = m->evaluate(i); const auto& p = e.params; float w = pix * fac;
    vp_check_close(p.albedo[1], slot == 0 ? w : 1, 1e-4, "settings take effect, the last one counting"); vp_check_close(p.opacity, slot == 1 ? w : 1, 1e-4, "settings take effect, the last one counting"); vp_check_close(p.metallic, slot == 2 ? w : 0, 1e-4, "settings take effect, the last one counting"); vp_check_close(p.roughness, slot == 3 ? w : 1, 1e-4, "settings take effect, the last one counting"); vp_check_close(p.transmission[2], slot == 4 ? w : 0, 1e-4, "settings take effect, the last one counting"); vp_check_close(p.emission[0], slot == 5 ? w : 0, 1e-4, "settings take effect, the last one counting");
    if (p.opacity < 1) vp_check(m->has_alpha(), "a material that may be transparent says so"); if (slot == 1) { vp_check(!(m->has_alpha_texture()) || m->has_alpha(), "a material that may be transparent says so"); vp_check_close(m->alpha_factor(), fac, 1e-5, "the alpha factor is the one set"); } else vp_check(!m->has_alpha() && !m->has_alpha_texture(), "other settings leave opacity alone"); vp_cover("settings");
}
ENTRY models() {   // the material's reflection is its model's, at the evaluated hit
    auto a = std::make_shared<LambertianBSDF<S>>(); auto c = full(); auto m = make(a); I i = hit(); m->set_albedo_factor(rgb("f")); bool sw = vp_bool("switch"); if (sw) m->set_bsdf(c); m->set_metallic_factor(0.5f); auto e = m->evaluate(i); F3 wo(0.6f, 0, 0.8f), wi(-0.36f, 0.48f, 0.8f); float u1 = 0.9f, u2 = 0.25f; BSDF<S>* b = sw ? (BSDF<S>*)c.get() : (BSDF<S>*)a.get();
    if (sw) vp_check_close(e.params.metallic, 0.5, 1e-5, "a new model gets the parameters it needs"); S x = m->bsdf_eval(wo, wi, e), y = b->eval(wo, wi, e.isect, e.params); auto s = m->bsdf_sample(wo, e, u1, u2), t = b->sample(wo, e.isect, e.params, u1, u2); vp_check(m->bsdf_pdf(wo, wi, e) == b->pdf(wo, wi, e.isect, e.params), "reflection is the model's"); vp_check(s.wi == t.wi && s.pdf == t.pdf && s.is_delta == t.is_delta, "sampling is the model's"); for (int k = 0; k < 3; ++k) { vp_check(x[k] == y[k], "reflection is the model's"); vp_check(s.value[k] == t.value[k], "sampling is the model's"); } vp_cover("models");
}
