//! entry: spectra time=60 opts=--symround,--bv2real=16
//! libs: -lpng -ltiff -lturbojpeg
#include "codec.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/util/paths.hpp"
#include "huira/images/io/io_util.hpp"
#include "huira/images/io/tiff_io.hpp"
using namespace huira;
static bool near(double a, double b, double tol) { return a - b <= tol && b - a <= tol; }
static double most(int bits) { return (double)((1L << bits) - 1); }
static void open_none() { vp_check(cf::opened == 0 && tf::opened == 0, "nothing stays open"); }
ENTRY spectra() { float b = vp_inf("b", 0.125f, 0.875f), c = vp_inf("c", 0.125f, 0.875f); Image<Visible8> im(2, 1); im(0, 0) = Visible8{b}; im(1, 0) = Visible8{0.f}; for (size_t i = 0; i < 8; i++) im(1, 0)[i] = i < 4 ? b : c; ImageBundle<Visible8> w(std::move(im)); w.bit_depth = vp_choice("deep", 2) ? 16 : 8; bool alpha = vp_choice("alpha", 2); if (alpha) w.alpha = Image<float>(2, 1, 0.5f); write_image_tiff("/im.tif", w); auto r = read_image_tiff_mono("/im.tif"); double tol = 0.5001 / most(w.bit_depth) + 2e-7; vp_check(r.image.width() == 2 && near(r.image[0], b, tol) && near(2 * (double)r.image[1], (double)b + (double)c, 2 * tol), "spectra are written as their mean"); vp_check(r.alpha.size() == (alpha ? 2u : 0u), "transparency comes back if there is any that fits"); open_none(); vp_cover("spectra"); }
