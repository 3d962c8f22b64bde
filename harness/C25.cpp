// C25: sampling warps
//! entry: uniform time=40
//! entry: cosine time=40
//! entry: power time=40
//! entry: ggx time=40
//! entry: vndf time=60
//! entry: frames time=40
//! bound: all random numbers in [0,1), all roughness in [0.05,1] (normal distribution) or three (visible normals), powers 0, 1, 3 and 7, outgoing directions from a table for visible normals; exact real arithmetic
#include "vp.hpp"
#include <algorithm>
#include "huira/util/logger.hpp"
#include "huira/materials/sampling_utils.hpp"
using namespace huira; using F3 = Vec3<float>; namespace sa = huira::sampling;
static const double Pi = 3.1415927, IPi = 0.31830987;
static float u1, u2;
static void draw() { u1 = vp_inf("u1", 0, 0.999f); u2 = vp_inf("u2", 0, 1); }
static void around(const F3& d, double r) {   // the second number is the azimuth, uniformly
    vp_check_close(glm::dot(d, d), 1, 1e-4, "directions have unit length"); vp_check_close(d.x, r * std::cos(2.0f * std::numbers::pi_v<float> * u2), 1e-4, "azimuths are uniform"); vp_check_close(d.y, r * std::sin(2.0f * std::numbers::pi_v<float> * u2), 1e-4, "azimuths are uniform");
}
ENTRY uniform() { draw(); auto s = sa::uniform_hemisphere(u1, u2); around(s.direction, std::sqrt(1 - (double)u1 * u1)); vp_check_close(s.direction.z, u1, 1e-4, "heights are uniform"); vp_check_close(s.pdf, 1 / (2 * Pi), 1e-5, "the density is that of the samples"); vp_cover("uniform"); }
ENTRY cosine() { draw(); auto s = sa::cosine_hemisphere(u1, u2); double z = s.direction.z; around(s.direction, std::sqrt((double)u1)); vp_check(z >= 0, "samples lie above the surface"); vp_check_close(1 - z * z, u1, 1e-4, "samples are cosine-distributed"); vp_check_close(s.pdf, z * IPi, 1e-5, "the density is that of the samples"); vp_cover("cosine"); }
ENTRY power() { draw(); static const int N[4] = {0, 1, 3, 7}; int k = vp_choice("n", 4), n = N[k]; auto s = sa::power_cosine_hemisphere(u1, u2, n); double z = s.direction.z, zn = 1; vp_check(z >= 0 && z <= 1, "samples lie above the surface"); for (int j = 0; j < n; ++j) zn *= z; around(s.direction, std::sqrt(1 - z * z)); vp_check_close(zn * z, u1, 1e-4, "samples follow the power of the cosine"); vp_check_close(s.pdf, (n + 1) / (2 * Pi) * zn, 1e-4, "the density is that of the samples"); vp_cover("power"); }
ENTRY ggx() {
    draw(); float ro; static const float RO[3] = {0.1f, 0.5f, 1}; if (vp_choice("vary", 2)) ro = RO[vp_choice("rough", 3)]; else { ro = vp_inf("rough2", 0.05f, 1); static const float U[4] = {0, 0.19f, 0.5f, 0.9f}; u1 = U[vp_choice("u", 4)]; } auto s = sa::ggx_sample_half_vector(u1, u2, ro); F3 h = s.half_vector; double c2 = (double)h.z * h.z, a2 = (double)ro * ro * ro * ro, e = 1 + (a2 - 1) * c2;
    vp_check_close(glm::dot(h, h), 1, 1e-4, "directions have unit length"); vp_check(h.z >= 0, "samples lie above the surface"); vp_check_close(1 - c2, u1 * e, 1e-4, "samples follow the microfacet distribution"); vp_check_close(s.pdf * Pi * e * e, a2 * h.z > 1e-8 * Pi * e * e ? a2 * h.z : 1e-8 * Pi * e * e, 1e-4, "the density is that of the samples"); vp_check_close(h.x * std::sin(2.0f * std::numbers::pi_v<float> * u2), h.y * std::cos(2.0f * std::numbers::pi_v<float> * u2), 1e-4, "azimuths are uniform"); vp_cover("ggx");
}
ENTRY vndf() {
    static const float W[3][3] = {{0, 0, 1}, {0.6f, 0, 0.8f}, {0.36f, -0.48f, 0.8f}}, RO[2] = {1, 0.5f}, U[6] = {0, 0.36f, 0.64f, 0.25f, 0.75f, 0.96f}; int kw = vp_choice("wo", 3); F3 wo(W[kw][0], W[kw][1], W[kw][2]); float ro = RO[kw ? 0 : vp_choice("rough", 2)]; u1 = U[vp_choice("u1", 6)]; u2 = 0.125f * vp_choice("u2", 8); auto s = sa::ggx_vndf_sample(wo, ro, u1, u2); F3 h = s.half_vector;
    vp_check_close(glm::dot(h, h), 1, 1e-4, "directions have unit length"); vp_check(h.z >= 0 && glm::dot(h, wo) >= 0, "samples lie above the surface and are visible"); double al = ro * ro, a2 = al * al, e = 1 + (a2 - 1) * h.z * h.z, t2 = (1 - (double)wo.z * wo.z) / ((double)wo.z * wo.z), G = 2 / (1 + std::sqrt(1 + a2 * t2)); vp_check_close(s.pdf * Pi * e * e * wo.z, a2 * G * glm::dot(h, wo), 1e-4, "the density is that of the samples");
    // undo the map: unstretch, project along the view direction, straighten the half disk
    double nx = h.x / al, ny = h.y / al, nl = std::sqrt(nx * nx + ny * ny + h.z * h.z); nx /= nl; ny /= nl; double vx = al * wo.x, vy = al * wo.y, vl = std::sqrt(vx * vx + vy * vy + wo.z * wo.z); vx /= vl; vy /= vl; double vz = wo.z / vl, l = std::sqrt(vx * vx + vy * vy), tx = l > 0 ? -vy / l : 1, ty = l > 0 ? vx / l : 0, p1 = nx * tx + ny * ty, p2 = -vz * ty * nx + vz * tx * ny + (vx * ty - vy * tx) * (h.z / nl), ss = 0.5 * (1 + vz), q = (p2 - (1 - ss) * std::sqrt(1 - p1 * p1)) / ss;
    vp_check_close(p1 * p1 + q * q, u1, 1e-3, "visible normals are sampled uniformly over their projection"); vp_cover("vndf");
}
ENTRY frames() { F3 v = vp_vec3<float>("v"); auto m = vp_rotmat<float>("m"); F3 t = m[0], b = m[1], n = m[2]; F3 w = sa::local_to_world(v, t, b, n), back = sa::world_to_local(w, t, b, n); vp_close3(back, v, 1e-3, "frame conversions undo each other"); vp_close3(sa::local_to_world(F3(0, 0, 1), t, b, n), n, 1e-4, "the local pole is the normal"); vp_close3(sa::local_to_world(F3(1, 0, 0), t, b, n), t, 1e-4, "the local x axis is the tangent"); vp_cover("frames"); }
//! entry: sine time=40
ENTRY sine() {   // whatever the density (it falls with height), the mass between two heights is what was drawn for it
    static const float A[3] = {0.271f, 0.5f, 0.784f}, B[3] = {0.488f, 0.657f, 0.875f}; int k = vp_choice("k", 3); float a = A[k], b = B[k]; u2 = vp_inf("u2", 0, 1); auto s = sa::sine_hemisphere(a, u2), t = sa::sine_hemisphere(b, 0); double z = s.direction.z, y = t.direction.z, p = s.pdf, q = t.pdf, lo = p < q ? p : q, hi = p < q ? q : p, d = 2 * Pi * std::fabs(z - y); around(s.direction, std::sqrt(1 - z * z)); vp_check(d * lo <= (b - a) + 1e-3 && d * hi >= (b - a) - 1e-3, "horizon-weighted samples follow their density"); vp_cover("sine");
}
