//! entry: round8 mode=fp time=60 opts=--castcheck asan=1
//! entry: round16 mode=fp time=60 opts=--castcheck asan=1
//! entry: nearest8 time=60 opts=--enumcap=300
//! entry: safe mode=fp time=60 opts=--castcheck asan=1
//! entry: ends mode=fp time=60 opts=--castcheck asan=1
//! entry: ordered time=60 opts=--enumcap=300
//! entry: gray time=60
//! entry: vectors time=60
//! entry: ranges time=60
//! entry: srgb_roundtrip time=60
//! entry: srgb_shape time=60 opts=--powanchor
//! entry: bundle time=60
//! bound: every 8-bit and 4096 16-bit pixel values, every single-precision value (NaN and infinities included) for safety and clamping; colour values within [0,1]
#include "vp.hpp"
#include "huira/images/image.hpp"
#include "huira/images/io/color_space.hpp"
#include "huira/images/io/convert_pixel.hpp"
using namespace huira;
template <class T> static void rt(uint64_t b) { T v = (T)b; float f = convert_pixel_to_float<T>(v); vp_check(f >= 0 && f <= 1, "integer pixels become values in [0,1]"); vp_check(convert_float_to_pixel<T>(f) == v, "integer pixels survive conversion to float and back"); }
ENTRY round8() { uint64_t b = vp_bits("b", 8); if (vp_fork(vp_bool("s"))) rt<int8_t>(b); else rt<uint8_t>(b); vp_cover("round8"); }
ENTRY round16() { uint64_t b = vp_bits("b", 8) + 256 * vp_concretize(vp_bits("h", 3)) * 36; if (vp_fork(vp_bool("s"))) rt<int16_t>(b); else rt<uint16_t>(b); vp_cover("round16"); }
ENTRY nearest8() { float f = vp_inf("f", -2, 3); double c = f < 0 ? 0 : f > 1 ? 1 : f; if (vp_fork(vp_bool("s"))) { int r = convert_float_to_pixel<int8_t>(f); vp_check(std::fabs(r + 128 - 255 * c) <= 0.501, "floats round to the nearest signed pixel value"); } else { int r = convert_float_to_pixel<uint8_t>(f); vp_check(std::fabs(r - 255 * c) <= 0.501, "floats round to the nearest pixel value"); } vp_cover("near8"); }
ENTRY ordered() { float f = vp_inf("f", 0, 0.05f), g = vp_inf("g", 0, 0.05f); vp_assume(f <= g); vp_check(convert_float_to_pixel<int8_t>(f) <= convert_float_to_pixel<int8_t>(g), "brighter values never become darker signed pixels"); vp_check(convert_float_to_pixel<uint8_t>(f) <= convert_float_to_pixel<uint8_t>(g), "brighter values never become darker pixels"); vp_cover("ordered"); }
ENTRY safe() {   // any bit pattern: no undefined conversion
    float f = vp_realf_any("f"); unsigned k = (unsigned)vp_choice("t", 6); if (k == 0) convert_float_to_pixel<uint8_t>(f); if (k == 1) convert_float_to_pixel<int16_t>(f); if (k == 2) convert_float_to_pixel<uint16_t>(f); if (k == 3) convert_float_to_pixel<uint32_t>(f); if (k == 4) convert_float_to_pixel<int32_t>(f); if (k == 5) convert_float_to_pixel<int8_t>(f); vp_cover("safe");
}
template <class T> static void ends(float hi, float lo) { using L = std::numeric_limits<T>; vp_check(convert_float_to_pixel<T>(hi) == L::max(), "values of one and above are full scale"); vp_check(convert_float_to_pixel<T>(lo) == L::min(), "values of zero and below are the lowest value"); }
ENTRY ends() { float hi = vp_realf_any("hi"), lo = vp_realf_any("lo"); vp_assume(hi >= 1 && lo <= 0); unsigned k = (unsigned)vp_choice("t", 6); if (k == 0) ends<uint8_t>(hi, lo); if (k == 1) ends<int8_t>(hi, lo); if (k == 2) ends<uint16_t>(hi, lo); if (k == 3) ends<int16_t>(hi, lo); if (k == 4) ends<uint32_t>(hi, lo); if (k == 5) ends<int32_t>(hi, lo); vp_cover("ends"); }
ENTRY gray() { Vec3<float> c = vp_vec3in<float>("c", 0, 1); double g = 0.2126 * c.x + 0.7152 * c.y + 0.0722 * c.z; vp_check_close(convert_vec3_to_pixel<float>(c), g, 1e-5, "gray is the luminance"); vp_check_close(convert_pixel_to_float(c), g, 1e-5, "colours convert to their luminance"); vp_check_close(convert_pixel_to_float(Vec3<double>(c)), g, 1e-5, "colours convert to their luminance"); float v = vp_inf("v", 0, 1); vp_close3(convert_pixel_to_vec3(v), Vec3<float>(v), 0, "gray spreads over the channels"); vp_check_close(convert_vec3_to_pixel<float>(convert_float_to_pixel<Vec3<float>>(v)), v, 1e-5, "gray survives conversion to colour and back"); vp_cover("gray"); }
ENTRY vectors() { Vec3<float> c = vp_vec3in<float>("c", -9, 9); vp_close3(convert_vec3_to_pixel<Vec3<float>>(c), c, 0, "colours are kept"); vp_close3(Vec3<float>(convert_vec3_to_pixel<Vec3<double>>(c)), c, 0, "colours are kept"); vp_close3(convert_pixel_to_vec3(Vec3<double>(c)), c, 0, "colours are kept"); vp_close3(convert_pixel_to_vec3(c), c, 0, "colours are kept"); vp_check_close(convert_float_to_pixel<double>(c.x), c.x, 0, "float pixels are kept"); vp_check_close(convert_pixel_to_float<float>(c.x), c.x, 0, "float pixels are kept"); uint8_t b = (uint8_t)(5 * vp_choice("b", 52)); vp_close3(convert_pixel_to_vec3(b), Vec3<float>(b / 255.f), 1e-5, "integer pixels spread over the channels"); vp_cover("vec"); }
ENTRY ranges() { uint8_t b = (uint8_t)(17 * vp_choice("b", 16)); int8_t s = (int8_t)(b - 128); float lo = vp_inf("lo", -10, 10), hi = vp_inf("hi", -10, 10); vp_assume(hi - lo > 0.1f); vp_check_close(integer_to_float(b, lo, hi), lo + b / 255.0 * ((double)hi - lo), 1e-4, "integers map linearly onto a range"); vp_check_close(integer_to_float(s, lo, hi), lo + b / 255.0 * ((double)hi - lo), 1e-4, "signed integers map linearly onto a range"); vp_check(float_to_integer<uint8_t>(hi, lo, hi) == 255 && float_to_integer<uint8_t>(lo, lo, hi) == 0 && float_to_integer<int8_t>(hi, lo, hi) == 127 && float_to_integer<int8_t>(lo, lo, hi) == -128, "a range's ends map to the ends of the integers"); vp_cover("ranges"); }
ENTRY srgb_roundtrip() { float x = vp_inf("x", 0, 1); float s = linear_to_srgb(x); if (x <= 0.0031f) vp_check_close(srgb_to_linear(s), x, 1e-4, "sRGB decoding undoes encoding in the linear segment"); else if (x > 0.00314f) { vp_check_close((s + 0.055f) / 1.055f, std::pow(x, 1.0f / 2.4f), 1e-5, "sRGB encoding is the power law"); } float e = vp_inf("e", 0, 1); float l = srgb_to_linear(e); if (e > 0.0405f) vp_check_close(l, std::pow((e + 0.055f) / 1.055f, 2.4f), 1e-5, "sRGB decoding is the power law"); else if (e < 0.0404f) vp_check_close(l, e / 12.92, 1e-5, "sRGB decoding is linear near black"); float g = vp_inf("g", 0.5f, 3); vp_check_close(gamma_to_linear(e, g), std::pow(e, g), 1e-5, "gamma decoding is a power"); vp_cover("srgb"); }
ENTRY srgb_shape() { vp_check(linear_to_srgb(0.f) == 0 && srgb_to_linear(0.f) == 0, "black stays black"); vp_check_close(linear_to_srgb(1.f), 1, 1e-5, "white stays white"); vp_check_close(srgb_to_linear(1.f), 1, 1e-5, "white stays white"); vp_check_close(linear_to_srgb(0.18f), 0.461356, 1e-4, "mid gray"); vp_check_close(srgb_to_linear(0.5f), 0.214041, 1e-4, "mid gray"); float a = vp_inf("a", 0, 1), b = vp_inf("b", 0, 1); vp_assume(a <= b); vp_assume((a <= 0.003f) == (b <= 0.003f) || b > 0.004f); vp_check(linear_to_srgb(a) <= linear_to_srgb(b) + 1e-4f || (a <= 0.0031f && b > 0.0031f), "sRGB encoding keeps the order"); vp_cover("shape"); }
ENTRY bundle() { ImageBundle<RGB> b(Image<RGB>(2, 1), Image<float>(2, 1, 0.5f)); for (size_t i = 0; i < 2; i++) for (size_t k = 0; k < 3; k++) b.image[i][k] = vp_inf("p", 0, 1); auto s = linear_to_srgb(b), l = srgb_to_linear(b); for (size_t i = 0; i < 2; i++) for (size_t k = 0; k < 3; k++) { vp_check_close(s.image[i][k], linear_to_srgb(b.image[i][k]), 1e-6, "images are encoded pixel by pixel"); vp_check_close(l.image[i][k], srgb_to_linear(b.image[i][k]), 1e-6, "images are decoded pixel by pixel"); } vp_check(s.color_space == ColorSpaceHint::sRGB && l.color_space == ColorSpaceHint::Linear && s.alpha[1] == 0.5f && l.alpha[0] == 0.5f, "the encoding is recorded and transparency kept"); vp_cover("bundle"); }
