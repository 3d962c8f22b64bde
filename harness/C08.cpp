//! libs: -lembree4 -lpng
//! entry: pinhole time=60
//! entry: roundtrip time=60
//! entry: ray_roundtrip time=60
//! entry: intrinsics time=60
//! entry: matrix time=60
//! entry: fov time=60
//! entry: fov_rays time=60
//! entry: aperture_area time=60
//! entry: solid_angle time=60 opts=--sqrtq
//! entry: focus time=60 opts=--sqrtq
//! entry: focus_far time=60
//! entry: sizes time=60 opts=--sqrtq
//! entry: distorted time=60 opts=--sqrtq
//! entry: distorted_inside time=60 opts=--sqrtq
//! entry: distorted_focus time=60 opts=--sqrtq
//! bound: cameras with 3x4 pixels, 3 to 5 fixed intrinsic configurations (different aspect, off-centre principal points, both axis conventions), every point, pixel position and focus distance
#include "cam.hpp"
using T = units::Millimeter;
static const Resolution R{3, 4};
// configurations of a small camera; returns fx, fy, cx, cy
struct K { float fx, fy, cx, cy; };
static K setup_as(Cam& c, unsigned n) {
    switch (n) {
    case 0: c.configure_sensor_from_pitch(R, units::Micrometer(10000.0)); c.set_focal_length(T(40.0)); return {4, 4, 1.5f, 2};
    case 1: c.set_focal_length(T(20.0)); c.configure_sensor_from_pitch(R, units::Micrometer(10000.0), units::Micrometer(5000.0), 0.5f, 3.0f); return {2, 4, 0.5f, 3};
    case 2: c.set_intrinsics(3, 5, 1, 2.5f, R, T(50.0)); return {3, 5, 1, 2.5f};
    default: c.set_focal_length(T(60.0)); c.configure_sensor_from_size(R, T(30.0), T(80.0), 2.0f); c.use_blender_convention(); return {6, 3, 2, 2};
    }
}
static K setup(Cam& c, uint32_t n = 4) { return setup_as(c, (unsigned)vp_choice("config", n)); }
static double sgn(const Cam& c) { return c.is_blender_convention() ? -1 : 1; }
ENTRY pinhole() {
    Cam c; K k = setup(c); F3 p = vp_vec3in<float>("p", -10, 10); double s = sgn(c); vp_assume(s * p.z > 0.1); Pixel q = c.project_point(p);
    vp_check_close(q.x, k.fx * p.x / (s * p.z) + k.cx, 1e-3, "horizontal pinhole projection"); vp_check_close(q.y, k.fy * s * p.y / (s * p.z) + k.cy, 1e-3, "vertical pinhole projection"); vp_cover("pinhole");
}
ENTRY roundtrip() {
    Cam c; setup(c); Pixel px(vp_inf("u", 0, 2.99f), vp_inf("v", 0, 3.99f)); Ray<RGB> r = c.cast_ray(px); float d = vp_inf("d", 0.1f, 100); F3 a = r.at(d);
    Pixel q = c.project_point(a); vp_check_close(q.x, px.x, 1e-3, "a point on a pixel's ray projects back onto the pixel (horizontal)"); vp_check_close(q.y, px.y, 1e-3, "a point on a pixel's ray projects back onto the pixel (vertical)");
    vp_check_close(glm::dot(r.direction(), r.direction()), 1, 1e-5, "pixel rays have unit direction"); vp_close3(r.origin(), F3(0), 0, "pixel rays start at the camera"); vp_check(sgn(c) * r.direction().z > 0, "pixel rays look ahead"); vp_cover("roundtrip");
}
ENTRY ray_roundtrip() {
    Cam c; setup(c); F3 p = vp_vec3in<float>("p", -10, 10); double s = sgn(c); vp_assume(s * p.z > 0.1); Pixel q = c.project_point(p); vp_assume(q.x >= 0 && q.x < 2.999f && q.y >= 0 && q.y < 3.999f);
    F3 d = c.cast_ray(q).direction(), x = glm::cross(d, p); vp_close3(x, F3(0), 1e-2, "the ray through a point's image passes through the point"); vp_check(glm::dot(d, p) > 0, "the ray points towards the point"); vp_cover("rayrt");
}
ENTRY intrinsics() {
    float f = vp_inf("f", 0.01f, 0.2f); Cam c; c.configure_sensor_from_pitch(Resolution{1, 1}, units::Micrometer(10000.0), units::Micrometer(5000.0)); c.set_focal_length(units::Meter(f)); vp_check_close(c.focal_length().to_si(), f, 1e-6, "the focal length is kept");
    Pixel q = c.project_point(F3(0.1f, -0.2f, 1)); vp_check_close(q.x, 0.5 + 0.1 * f / 0.01, 1e-3, "the horizontal scale is focal length over pitch"); vp_check_close(q.y, 0.5 - 0.2 * f / 0.005, 1e-3, "the vertical scale is focal length over pitch");
    float bad = vp_realf_any("bad"); vp_assume(!(bad > 0) || !std::isfinite(bad)); vp_assume(!std::isnan(bad)); Cam e; vp_check(vp_throws([&] { e.set_focal_length(units::Meter(bad)); }), "a focal length that is not positive and finite is rejected"); vp_check_close(e.focal_length().to_si(), 0.05, 1e-6, "a rejected focal length changes nothing"); vp_cover("intr");
}
ENTRY matrix() {
    Mat3<float> k(1); k[0][0] = 3; k[1][1] = 5; k[2][0] = 1; k[2][1] = 2.5f; Cam c; c.set_intrinsic_matrix(k, R, T(50.0)); F3 p = vp_vec3in<float>("p", -10, 10); vp_assume(p.z > 0.1f); F3 h = k * p; Pixel q = c.project_point(p);
    vp_check_close(q.x, h.x / h.z, 1e-3, "projection is the intrinsic matrix (horizontal)"); vp_check_close(q.y, h.y / h.z, 1e-3, "projection is the intrinsic matrix (vertical)"); vp_check_close(c.focal_length().to_si(), 0.05, 1e-6, "the anchor focal length is kept");
    auto s = c.resolution(); vp_check(s.x == 3 && s.y == 4, "the resolution is kept"); vp_cover("matrix");
}
ENTRY fov() {   // in view exactly if it projects onto the sensor
    Cam c; setup(c); F3 p = vp_vec3in<float>("p", -10, 10); double s = sgn(c); double z = s * p.z; bool in = c.in_fov(p);
    if (z > 0.01) { Pixel q = c.project_point(p); double e = 1e-3;
        if (q.x > e && q.x < 3 - e && q.y > e && q.y < 4 - e) vp_check(in, "a point that projects onto the sensor is in view");
        if (q.x < -e || q.x > 3 + e || q.y < -e || q.y > 4 + e) vp_check(!in, "a point that projects off the sensor is not in view");
        Pixel t = c.try_project_point(p); if (in) vp_check_close(t.x, q.x, 1e-5, "points in view project as usual"); else vp_check(std::isnan(t.x) && std::isnan(t.y), "points out of view have no projection"); }
    if (z < -0.01) vp_check(!in, "a point behind the camera is not in view"); vp_check(!c.in_fov(F3(0)), "the camera centre itself is not in view"); vp_cover("fov");
}
ENTRY fov_rays() {
    Cam c; setup(c); Pixel px(vp_inf("u", 0, 2.99f), vp_inf("v", 0, 3.99f)); vp_assume(px.x > 0.001f && px.y > 0.001f); vp_check(c.in_fov(c.cast_ray(px).direction()), "every ray through the sensor is within the view frustum"); vp_cover("fovr");
}
ENTRY aperture_area() {
    Cam c; float n = vp_inf("n", 0.5f, 64); c.set_focal_length(T(50.0)); c.set_fstop(n); vp_check_close(c.fstop(), n, 1e-3, "the f-number is kept"); F3 d = vp_unit3<float>("d"); double a = 3.14159265358979 * 0.025 * 0.025 / (n * n);
    vp_check_close(1e4 * c.get_projected_aperture_area(d), 1e4 * a * std::fabs(d.z), 1e-3, "the projected aperture shrinks with the cosine"); vp_check_close(1e4 * c.get_projected_aperture_area(d * 3.f), 1e4 * a * std::fabs(d.z), 1e-3, "the projected aperture does not depend on the direction's length"); vp_cover("area");
}
static double omega(double x, double y) { return std::atan(x * y / std::sqrt(1 + x * x + y * y)); }
ENTRY solid_angle() {   // configurations and pixels are enumerated; the f-number is any
    Cam c; K k = setup(c); float n = vp_inf("n", 1, 64); c.set_fstop(n); double area = 3.14159265358979 * (double)c.focal_length().to_si() * c.focal_length().to_si() / 4 / ((double)n * n); int x = (int)vp_choice("x", 3), y = (int)vp_choice("y", 4);
    double x0 = (x - k.cx) / k.fx, x1 = (x + 1 - k.cx) / k.fx, y0 = (y - k.cy) / k.fy, y1 = (y + 1 - k.cy) / k.fy; double w = omega(x1, y1) - omega(x0, y1) - omega(x1, y0) + omega(x0, y0);
    double cz = std::fabs(c.cast_ray(x, y).direction().z); vp_check_close(1e4 * c.pixel_radiance_to_power(x, y), 1e4 * area * cz * w, 1e-3, "a pixel collects over its solid angle and the projected aperture"); vp_cover("solid");
}

static F3 focal(Cam& c, Ray<RGB>& r, Pixel px, float u, float v) { DeterministicSampler<float> s(0.5f, Vec2<float>(u, v)); r = c.cast_ray(px, s); return r.origin(); }
ENTRY focus() {
    Cam c; K k = setup(c, 3); c.set_fstop(10); float d = vp_inf("d", 0.2f, 1000); c.enable_depth_of_field(); c.set_focus_distance(units::Meter(d)); Pixel px(vp_inf("u", 0, 2.99f), vp_inf("v", 0, 3.99f)); Ray<RGB> r; const float sm[4][2] = {{0.5f, 0.5f}, {0.1f, 0.7f}, {0.9f, 0.3f}, {0.75f, 1}}; unsigned si = (unsigned)vp_choice("sample", 4); F3 o = focal(c, r, px, sm[si][0], sm[si][1]);
    double R2 = std::pow((double)c.focal_length().to_si() / 20, 2); vp_check(o.x * o.x + o.y * o.y <= R2 * 1.0001, "lens rays start inside the aperture"); vp_check(o.z == 0, "lens rays start in the lens plane"); vp_check_close(glm::dot(r.direction(), r.direction()), 1, 1e-5, "lens rays have unit direction"); double fx = d * (px.x - k.cx) / k.fx, fy = d * (px.y - k.cy) / k.fy; F3 w = F3((float)fx, (float)fy, d) - o; vp_close3(glm::cross(r.direction(), w) / d, F3(0), 1e-4, "every lens ray of a pixel passes through its point in the focal plane"); vp_check(r.direction().z > 0, "lens rays look ahead");
    vp_check_close(c.get_focus_distance().to_si(), d, 1e-3, "the focus distance is kept"); vp_check_close(c.get_diopters().to_si() * d, 1, 1e-4, "diopters are the reciprocal of the focus distance"); vp_cover("focus");
}
ENTRY focus_far() {
    Cam c; setup(c, 3); c.set_fstop(10); c.enable_depth_of_field(); c.set_diopters(units::Diopter(0.0)); vp_check(std::isinf(c.get_focus_distance().to_si()), "no diopters focus at infinity"); vp_check(c.get_diopters().to_si() == 0, "focus at infinity needs no diopters");
    Pixel px(vp_inf("u", 0, 2.99f), vp_inf("v", 0, 3.99f)); Ray<RGB> r; focal(c, r, px, vp_inf("s", 0, 1), vp_inf("t", 0, 1)); F3 d = c.cast_ray(px).direction(); vp_close3(r.direction(), d, 1e-5, "focused at infinity all lens rays of a pixel are parallel");
    float x = vp_inf("x", 0.5f, 10); c.set_diopters(units::Diopter(x)); vp_check_close(c.get_focus_distance().to_si() * x, 1, 1e-4, "diopters set the focus distance"); c.enable_depth_of_field(false); focal(c, r, px, 0.1f, 0.2f); vp_close3(r.origin(), F3(0), 0, "without depth of field rays start at the centre"); vp_close3(r.direction(), d, 1e-6, "without depth of field the lens is a pinhole"); vp_cover("focusf");
}

static void distort(Cam& c, unsigned model) { switch (model) { case 0: c.set_brown_conrady_distortion(BrownCoefficients(0.02, 0.01, 0, 0.003, -0.002)); break; case 1: c.set_opencv_distortion(OpenCVCoefficients(-0.02, 0.01, 0, 0.01, 0, 0, 0.002, 0.001, 0, 0, 0.002, 0)); break; default: c.set_owen_distortion(OwenCoefficients(0.01, -0.02, 0.01, 0, 0.005, -0.003)); } }
ENTRY distorted() {   // every pixel corner, and every position between them
    Cam c; K k = setup(c); distort(c, (unsigned)vp_choice("model", 3)); unsigned i = (unsigned)vp_choice("x", 3), j = (unsigned)vp_choice("y", 4); auto at = [&](float x, float y) { F3 d = c.cast_ray(Pixel(x, y)).direction(); return d; };
    { F3 d = at((float)i, (float)j); Pixel q = c.project_point(d * 3.f); vp_check_close(q.x, i, 2e-3, "rays through pixel corners undo the distortion (horizontal)"); vp_check_close(q.y, j, 2e-3, "rays through pixel corners undo the distortion (vertical)"); }
    if (i == 2) { F3 w = at(2.0f, (float)j), x = at(2.999f, (float)j); double dx = x.x / std::fabs(x.z) - w.x / std::fabs(w.z); vp_check(dx > 0.8 * 0.999 / k.fx && dx < 1.25 * 0.999 / k.fx, "the last pixel column spans a full pixel"); }
    if (j == 3) { F3 w = at((float)i, 3.0f), x = at((float)i, 3.999f); double dy = std::fabs(x.y / std::fabs(x.z) - w.y / std::fabs(w.z)); vp_check(dy > 0.8 * 0.999 / k.fy && dy < 1.25 * 0.999 / k.fy, "the last pixel row spans a full pixel"); } vp_cover("distorted");
}
ENTRY distorted_focus() {   // the focal surface is the plane at the focus distance, with distortion too
    Cam c; setup(c, 3); distort(c, (unsigned)vp_choice("model", 3)); c.set_fstop(10); float d = vp_inf("d", 0.2f, 1000); c.enable_depth_of_field(); c.set_focus_distance(units::Meter(d)); unsigned i = (unsigned)vp_choice("x", 2) * 2, j = (unsigned)vp_choice("y", 2) * 3; const float sm[2][2] = {{0.1f, 0.7f}, {0.9f, 0.3f}}; unsigned si = (unsigned)vp_choice("sample", 2);
    Ray<RGB> r; F3 o = focal(c, r, Pixel((float)i, (float)j), sm[si][0], sm[si][1]); float t = d / r.direction().z; Pixel q = c.project_point(o + r.direction() * t); vp_check_close(q.x, i, 3e-3, "lens rays of a distorted pixel meet in the focal plane (horizontal)"); vp_check_close(q.y, j, 3e-3, "lens rays of a distorted pixel meet in the focal plane (vertical)"); vp_cover("distfocus");
}
ENTRY distorted_inside() {   // positions inside a pixel
    unsigned n0 = (unsigned)vp_choice("model", 3); Cam c; setup_as(c, n0); distort(c, n0); unsigned i = vp_choice("pixel", 2) ? 2 : 1, j = i == 2 ? 0 : 3; double s = sgn(c); auto at = [&](float x, float y) { F3 d = c.cast_ray(Pixel(x, y)).direction(); return d; };
    float u = vp_inf("u", 0, 0.999f), v = 0.5f; if (vp_choice("vary", 2)) { v = u; u = 0.25f; } F3 m = c.cast_ray(Pixel(i + u, j + v)).direction(); vp_check(s * m.z > 0, "distorted rays look ahead"); float e = 0.999f; F3 a = at((float)i, (float)j), b = at(i + e, (float)j), f = at((float)i, j + e), g = at(i + e, j + e);
    for (int n = 0; n < 2; n++) { double lo = 1e9, hi = -1e9; for (auto& d : {a, b, f, g}) { lo = std::min(lo, (double)d[n] / std::fabs(d.z)); hi = std::max(hi, (double)d[n] / std::fabs(d.z)); } double z = std::fabs(m.z); vp_check(m[n] >= (lo - 1e-5) * z && m[n] <= (hi + 1e-5) * z, "rays inside a pixel lie between those of its corners"); } vp_cover("distin");
}
ENTRY sizes() {   // a sensor given by its size; square pixels when only the width is given
    const int rs[3][2] = {{1, 2}, {2, 1}, {1, 1}}; unsigned n = (unsigned)vp_choice("res", 3); int rx = rs[n][0], ry = rs[n][1]; const float ws[3] = {0.02f, 0.05f, 0.1f}; float w = ws[vp_choice("w", 3)], h = ws[vp_choice("h", 3)]; bool both = vp_fork(vp_bool("both")); Cam c; c.set_focal_length(T(40.0));
    if (both) c.configure_sensor_from_size(Resolution(rx, ry), units::Meter(w), units::Meter(h)); else c.configure_sensor_from_size(Resolution(rx, ry), units::Meter(w));
    double px = w / rx, py = both ? h / ry : px; float a = vp_inf("a", -1, 1), b = vp_inf("b", -1, 1); Pixel q = c.project_point(F3(a, b, 1)); vp_check_close(q.x, rx * 0.5 + a * 0.04 / px, 1e-3, "the horizontal scale follows the sensor width"); vp_check_close(q.y, ry * 0.5 + b * 0.04 / py, 1e-3, "the vertical scale follows the sensor height, or the pixels are square"); vp_cover("sizes");
}
