//! entry: brown time=40
//! entry: opencv time=60
//! entry: opencv_pole time=60
//! entry: owen time=60
//! entry: none time=40
//! entry: undo_brown time=60
//! entry: undo_opencv time=90
//! entry: undo_owen time=90
//! entry: undo_default time=60
//! entry: bounded_work time=60
//! bound: points within [-1,1] of the image plane and coefficients within [-0.5,0.5] for the forward models; inverting: one varying coefficient (within [-0.02,0.02]) at a time over 3 fixed points with the other coefficients at fixed small values, and the first radial coefficient over all points of one axis; convergence for strong distortion is outside
#include "vp.hpp"
#include "huira/core/types.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/cameras/distortion/brown_distortion.hpp"
#include "huira/cameras/distortion/opencv_distortion.hpp"
#include "huira/cameras/distortion/owen_distortion.hpp"
using namespace huira;
static float kf(const char* n) { return vp_inf(n, -0.5f, 0.5f); }
static Pixel pt() { Pixel p; p.x = vp_inf("x", -1, 1); p.y = vp_inf("y", -1, 1); return p; }
ENTRY brown() {
    double k1 = kf("k1"), k2 = kf("k2"), k3 = kf("k3"), p1 = kf("p1"), p2 = kf("p2"); BrownDistortion<RGB> d{BrownCoefficients(k1, k2, k3, p1, p2)}; Pixel p = pt(); double x = p.x, y = p.y, r2 = x * x + y * y; Pixel q = d.distort(p);
    double f = 1 + k1 * r2 + k2 * r2 * r2 + k3 * r2 * r2 * r2;
    vp_check_close(q.x, x * f + 2 * p1 * x * y + p2 * (r2 + 2 * x * x), 1e-4, "Brown model, horizontal"); vp_check_close(q.y, y * f + p1 * (r2 + 2 * y * y) + 2 * p2 * x * y, 1e-4, "Brown model, vertical");
    auto* c = dynamic_cast<BrownCoefficients*>(d.get_coefficients()); c->k2 = c->k3 = c->p1 = c->p2 = 0; Pixel s = d.distort(p); vp_check_close(s.x, x * (1 + k1 * r2), 1e-4, "edited coefficients take effect"); vp_cover("brown");
}
ENTRY opencv() {
    double k[6]; for (auto& v : k) v = kf("k"); double p1 = kf("p1"), p2 = kf("p2"), s1 = kf("s1"), s2 = kf("s2"), s3 = kf("s3"), s4 = kf("s4");
    OpenCVDistortion<RGB> d{OpenCVCoefficients(k[0], k[1], k[2], k[3], k[4], k[5], p1, p2, s1, s2, s3, s4)}; Pixel p = pt(); double x = p.x, y = p.y, r2 = x * x + y * y, r4 = r2 * r2, r6 = r4 * r2;
    double num = 1 + k[0] * r2 + k[1] * r4 + k[2] * r6, den = 1 + k[3] * r2 + k[4] * r4 + k[5] * r6; vp_assume(den > 0.05 || den < -0.05); Pixel q = d.distort(p);
    vp_check_close((q.x - (2 * p1 * x * y + p2 * (r2 + 2 * x * x) + s1 * r2 + s2 * r4)) * den, x * num, 1e-3, "OpenCV rational model, horizontal"); vp_check_close((q.y - (p1 * (r2 + 2 * y * y) + 2 * p2 * x * y + s3 * r2 + s4 * r4)) * den, y * num, 1e-3, "OpenCV rational model, vertical"); vp_cover("opencv");
}
ENTRY opencv_pole() {   // the denominator may vanish: the result must stay a number
    double k4 = vp_in("k4", -2, 2); OpenCVDistortion<RGB> d{OpenCVCoefficients(0, 0, 0, k4, 0, 0, 0, 0, 0, 0, 0, 0)}; Pixel p; p.x = vp_inf("x", -1, 1); p.y = 0; Pixel q = d.distort(p); vp_check(std::isfinite(q.x) && std::isfinite(q.y), "distortion is finite even where the model has a pole"); vp_cover("pole");
}
ENTRY owen() {
    double e[6]; for (auto& v : e) v = kf("e"); OwenDistortion<RGB> d{OwenCoefficients(e[0], e[1], e[2], e[3], e[4], e[5])}; Pixel p = pt(); double x = p.x, y = p.y, r2 = x * x + y * y, r = std::sqrt(r2); Pixel q = d.distort(p);
    double a = e[1] * r2 + e[3] * r2 * r2 + e[4] * y + e[5] * x, b = e[0] * r + e[2] * r * r2; vp_check_close(q.x, x + a * x - b * y, 1e-4, "Owen model, horizontal"); vp_check_close(q.y, y + a * y + b * x, 1e-4, "Owen model, vertical"); vp_cover("owen");
}
ENTRY none() {
    Pixel p = pt(); BrownDistortion<RGB> b; OpenCVDistortion<RGB> o; OwenDistortion<RGB> w; Distortion<RGB>* all[] = {&b, &o, &w};
    for (auto* d : all) { Pixel q = d->distort(p), u = d->undistort(p); vp_check_close(q.x, p.x, 1e-6, "no coefficients, no distortion (horizontal)"); vp_check_close(q.y, p.y, 1e-6, "no coefficients, no distortion (vertical)"); vp_check_close(u.x, p.x, 1e-6, "no coefficients, nothing to undo (horizontal)"); vp_check_close(u.y, p.y, 1e-6, "no coefficients, nothing to undo (vertical)"); }
    Pixel z(0.f, 0.f); BrownDistortion<RGB> bb{BrownCoefficients(kf("k1"), kf("k2"), kf("k3"), kf("p1"), kf("p2"))}; Pixel c = bb.distort(z); vp_check_close(c.x, 0, 1e-7, "the optical axis is not moved (horizontal)"); vp_check_close(c.y, 0, 1e-7, "the optical axis is not moved (vertical)"); vp_cover("none");
}
static Pixel fixedp() { static const float P[5][2] = {{0.3f, -0.4f}, {-0.7f, 0.2f}, {0.5f, 0.6f}, {-0.1f, -0.9f}, {0.8f, 0.05f}}; uint32_t i = vp_choice("point", 3); return Pixel(P[i][0], P[i][1]); }
// undo a distortion; the result distorted again must give the input back within the requested tolerance
static void undo(Distortion<RGB>& d, Pixel p, float tol) {
    d.set_tolerance(tol); d.set_max_iterations(2); Pixel u = d.undistort(p), q = d.distort(u);
    vp_check_close(q.x, p.x, 0.001, "distorting the undistorted point gives it back (horizontal)"); vp_check_close(q.y, p.y, 0.001, "distorting the undistorted point gives it back (vertical)");
}
static double c1(uint32_t which, uint32_t i, double v) { static const double F[] = {0.006, -0.004, 0.003, -0.002, 0.005, 0.001, -0.003, 0.002, 0.004, -0.001, 0.003, -0.005}; return i == which ? v : F[i]; }
ENTRY undo_brown() { uint32_t w = vp_choice("which", 5); double v = vp_in("v", -0.02, 0.02); BrownDistortion<RGB> d{BrownCoefficients(c1(w, 0, v), c1(w, 1, v), c1(w, 2, v), c1(w, 3, v), c1(w, 4, v))}; undo(d, fixedp(), 0.01f); vp_cover("undo_brown"); }
ENTRY undo_opencv() { static const uint32_t W[] = {0, 1, 2, 6, 7, 8, 9, 10, 11}; uint32_t w = W[vp_choice("which", 9)]; double v = vp_in("v", -0.02, 0.02); OpenCVDistortion<RGB> d{OpenCVCoefficients(c1(w, 0, v), c1(w, 1, v), c1(w, 2, v), 0, 0, 0, c1(w, 6, v), c1(w, 7, v), c1(w, 8, v), c1(w, 9, v), c1(w, 10, v), c1(w, 11, v))}; undo(d, fixedp(), 0.01f); vp_cover("undo_opencv"); }
ENTRY undo_owen() { static const uint32_t W[] = {1, 3, 4, 5}; uint32_t w = W[vp_choice("which", 4)]; double v = vp_in("v", -0.02, 0.02); OwenDistortion<RGB> d{OwenCoefficients(0, c1(w, 1, v), 0, c1(w, 3, v), c1(w, 4, v), c1(w, 5, v))}; undo(d, fixedp(), 0.01f); vp_cover("undo_owen"); }
ENTRY undo_default() {   // the tolerance that comes with a model is far below a pixel
    double v = vp_in("v", -0.0005, 0.0005); BrownDistortion<RGB> b{BrownCoefficients(v, 0, 0, 0, 0)}; Pixel p(0.6f, 0.f); Pixel u = b.undistort(p), q = b.distort(u); vp_check_close(q.x, p.x, 4e-6, "undistortion converges with the default settings"); vp_check_close(q.y, p.y, 4e-6, "undistortion converges with the default settings (vertical)"); vp_cover("undo_default");
}
ENTRY bounded_work() {
    double k = vp_in("k", -0.5, 0.5); std::size_t n = vp_choice("n", 3); BrownDistortion<RGB> d{BrownCoefficients(k, 0, 0, 0, 0)}; d.set_max_iterations(n); d.set_tolerance(0.f); vp_check(d.get_max_iterations() == n, "the iteration limit is kept"); vp_check(d.get_tolerance() == 0.f, "the tolerance is kept");
    Pixel p(vp_inf("x", -1, 1), 0.f); Pixel u = d.undistort(p); vp_check(std::isfinite(u.x) && std::isfinite(u.y), "undistortion returns after its iteration limit"); if (n == 0) vp_check(u.x == p.x && u.y == p.y, "without iterations the point is returned unchanged"); vp_cover("work");
}
