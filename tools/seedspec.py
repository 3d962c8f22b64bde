R = "include/huira_impl/core/rotation.ipp"; TR = "include/huira_impl/core/transform.ipp"; Q = "include/huira/units/quantity.hpp"
INCR = '#include "huira/core/rotation.hpp"\nusing namespace huira;'
INCT = '#include "huira/core/transform.hpp"\nusing namespace huira;'
INCU = '#include "huira/units/units.hpp"\nusing namespace huira; using namespace huira::units;'
seed("C01-gram", "C01", [(R, "    y = y - glm::dot(y, x) * x;\n", "")],
 "an accepted matrix whose first two columns are not exactly orthogonal", "the stored rotation is no longer orthonormal for slightly skewed matrices",
 "Mat3<double> m(1); m[1] = {0.5, 1.0, 0.0}; auto r = Rotation<double>::from_local_to_parent(m); NEAR(glm::dot(r.x_axis(), r.y_axis()), 0, 1e-9);", pre=INCR)
seed("C01-small-angle", "C01", [(R, "    T c = std::cos(angle_t);\n    T s = std::sin(angle_t);\n\n    // Create rotation matrix using Rodrigues' formula", "    T c = std::cos(angle_t);\n    T s = std::fabs(angle_t) < static_cast<T>(0.02) ? std::fabs(angle_t) : std::sin(angle_t);\n\n    // Create rotation matrix using Rodrigues' formula")],
 "a small negative rotation angle", "small negative angles about an axis turn the wrong way",
 "auto r = Rotation<double>::from_local_to_parent(Vec3<double>(0, 0, 1), units::Radian(-0.01)); auto v = r * Vec3<double>(1, 0, 0); NEAR(v.y, std::sin(-0.01), 1e-9);", pre=INCR)
seed("C02-transport-frame", "C02", [(TR, "glm::cross(angular_velocity, rotation * (scale * b.position));", "glm::cross(angular_velocity, rotation * b.position);")],
 "a parent that both spins and has a scale different from 1", "the transport velocity of a child ignores the parent's scale",
 "Transform<double> a, b; a.scale = {2, 2, 2}; a.angular_velocity = {0, 0, 1}; b.position = {1, 0, 0}; auto c = a * b; NEAR(c.velocity.y, 2, 1e-9);", pre=INCT, libs="-lembree4")
seed("C02-embree-wxyz", "C02", [(TR, "    decomp.quaternion_j = static_cast<float>(q.y);\n    decomp.quaternion_k = static_cast<float>(q.z);", "    decomp.quaternion_j = static_cast<float>(q.w < 0 ? -q.y : q.y);\n    decomp.quaternion_k = static_cast<float>(q.z);")],
 "a rotation whose quaternion has a negative scalar part (half turn or more about a tilted axis)", "the ray tracer sees another orientation than the scene",
 "int seen = 0; for (int k = 0; k < 2000; ++k) { double a = k * 0.003 + 0.001; Transform<double> t; t.rotation = Rotation<double>::from_local_to_parent(Vec3<double>(0.3 + (k % 5) * 0.2, 0.5 - (k % 3), 0.7 - (k % 7) * 0.2), units::Radian(a)); auto e = t.to_embree(); Vec3<double> u(e.quaternion_i, e.quaternion_j, e.quaternion_k), p(1, 2, 3); double w = e.quaternion_r; auto h = u * (2 * glm::dot(u, p)) + p * (w * w - glm::dot(u, u)) + glm::cross(u, p) * (2 * w); auto g = t.rotation * p; for (int i = 0; i < 3; ++i) if (std::fabs(h[i] - g[i]) > 1e-4) bad = 1; }", pre=INCT, libs="-lembree4")
seed("C03-tag-quotient", "C03", [(Q, "        return Quantity<ResultDim, std::ratio<1, 1>>(lhs.to_si() / rhs.to_si());", "        return Quantity<ResultDim, std::ratio<1, 1>>(lhs.to_si() / rhs.raw_value());")],
 "dividing by a quantity whose unit is scaled (hours, kilometres) when a tagged unit such as degrees is involved", "degrees per hour are 3600 times too large",
 "auto w = Degree(180.0) / Hour(1.0); NEAR(w.to_si(), 3.14159265358979 / 3600, 1e-9);", pre=INCU)
seed("C03-sidereal-recip", "C03", [(Q, "        return Quantity<ReciprocalDim, std::ratio<1, 1>>(static_cast<double>(scalar) /\n                                                         quantity.to_si());", "        return Quantity<ReciprocalDim, std::ratio<1, 1>>(static_cast<double>(scalar) /\n                                                         quantity.raw_value());")],
 "the reciprocal of a quantity in a tagged unit (sidereal day, electronvolt)", "reciprocals of tagged units lose the unit's scale",
 "auto f = 1.0 / SiderealDay(2.0); NEAR(f.to_si(), 0.5 / 86164.0905, 1e-9);", pre=INCU)
SB = "include/huira_impl/core/spectral_bins.ipp"; PH = "include/huira_impl/core/physics.ipp"; CM = "include/huira_impl/cameras/camera_model.ipp"; OCV = "include/huira_impl/cameras/distortion/opencv_distortion.ipp"; BRN = "include/huira_impl/cameras/distortion/brown_distortion.ipp"
INCS = '#include "huira/core/spectral_bins.hpp"\nusing namespace huira;'
INCP = '#include "huira/core/physics.hpp"\nusing namespace huira;'
INCD = '#include "huira/core/types.hpp"\n#include "huira/core/spectral_bins.hpp"\n#include "huira/cameras/distortion/brown_distortion.hpp"\n#include "huira/cameras/distortion/opencv_distortion.hpp"\n#include "huira/cameras/distortion/owen_distortion.hpp"\nusing namespace huira;'
INCC = '#include "huira/core/spectral_bins.hpp"\n#include "huira/cameras/camera_model.hpp"\nusing namespace huira; using Cam = CameraModel<RGB>; using F3 = Vec3<float>;'
CAML = "-lembree4 -lpng"
seed("C05-gap", "C05", [(SB, "result[i] = static_cast<float>(0.5 * (left_val + right_val));", "result[i] = static_cast<float>(left_val + 0.5 * (right_val - left_val) * bin_width / (wavelengths[lo_idx] - wavelengths[lo_idx - 1]));")],
 "a bin that lies strictly inside the gap between two consecutive samples", "bins between two samples get a value skewed towards their lower edge",
 "using S = UniformSpectralBins<4, 400, 800>; auto s = S::integrate_over_data({350, 850}, {0.f, 1.f}); NEAR(s[1], (550 - 350) / 500.0, 1e-4);", pre=INCS)
seed("C05-band", "C05", [(SB, "        double overlap_min = std::max(bin_min, min_wavelength);\n", "        double overlap_min = bin_max > max_wavelength ? bin_min : std::max(bin_min, min_wavelength);\n")],
 "a band that starts and ends inside the same bin", "integrating over a band inside one bin also counts the part of the bin below the band",
 "using S = UniformSpectralBins<2, 400, 800>; S s(3.f); NEAR(s.integrate_over_band(450e-9, 500e-9) * 1e9, 150, 1e-3);", pre=INCS)
seed("C06-rayleigh", "C06", [(PH, "double exponential = std::exp(c2 / (lam * temp)) - 1.0;", "double exponential = c2 / (lam * temp) < 0.1 ? c2 / (lam * temp) : std::exp(c2 / (lam * temp)) - 1.0;")],
 "long wavelengths of hot bodies", "the Rayleigh-Jeans approximation is used where it is 5% off",
 "auto r = plancks_law(5000, {30e-6}); double x = 0.01438776877 / (30e-6 * 5000); NEAR(r[0] / (1.1910429e-16 / std::pow(30e-6, 5) / (std::exp(x) - 1)), 1, 1e-3);", pre=INCP)
seed("C06-trapezoid", "C06", [(PH, "        double dx = x[i + 1] - x[i];\n", "        double dx = (x[x.size() - 1] - x[0]) / static_cast<double>(x.size() - 1);\n")],
 "nodes that are not evenly spaced", "integration assumes evenly spaced nodes",
 "NEAR(integrate({0, 1, 4}, {2, 4, 0}), 9, 1e-9);", pre=INCP)
seed("C06-parallel", "C06", [(PH, "double beta_sq = glm::dot(beta, beta);", "double beta_sq = glm::dot(direction, beta) * glm::dot(direction, beta);")],
 "motion that is not along the line of sight", "the Lorentz factor uses the speed along the line of sight only",
 "auto d = compute_aberrated_direction(Vec3<double>(0, 0, 1), Vec3<double>(0.5 * 299792458.0, 0, 0)); NEAR(glm::length(d), 1, 1e-9); NEAR(d.x, 0.5, 1e-9);", pre=INCP)
seed("C07-k6", "C07", [(OCV, "static_cast<TFloat>(coefficients_.k6) * r6;", "static_cast<TFloat>(coefficients_.k6) * r4 * std::sqrt(r4);"), (OCV, "const TFloat r4 = r2 * r2;", "const TFloat r4 = r2 * r2 + TFloat{0} * x;"), (OCV, "static_cast<TFloat>(coefficients_.s4) * r4};", "static_cast<TFloat>(coefficients_.s4) * r4 * (x < TFloat{0} ? TFloat{-1} : TFloat{1})};")],
 "a thin-prism coefficient s4 and a point left of the centre", "the thin-prism term flips sign on the left half",
 "OpenCVDistortion<RGB> d{OpenCVCoefficients(0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0.1)}; Pixel q = d.distort(Pixel(-0.5f, 0.5f)); NEAR(q.y, 0.5 + 0.1 * 0.25, 1e-5);", pre=INCD)
seed("C07-pole", "C07", [(OCV, "(std::abs(denominator_raw) < static_cast<TFloat>(kMinDenominator))", "(denominator_raw > TFloat{0} && denominator_raw < static_cast<TFloat>(kMinDenominator))")],
 "coefficients whose denominator vanishes exactly at the point", "distortion is infinite at a pole",
 "OpenCVDistortion<RGB> d{OpenCVCoefficients(0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0)}; Pixel q = d.distort(Pixel(1.f, 0.f)); EXPECT(std::isfinite(q.x) && std::isfinite(q.y));", pre=INCD)
seed("C07-brown-undo", "C07", [(BRN, "        const BasePixel<double> new_coords = homogeneous_coords_d - delta;", "        const BasePixel<double> new_coords = i == 0 ? homogeneous_coords_d - delta : undistorted_coords_d + 0.5 * (homogeneous_coords_d - delta - undistorted_coords_d) * (delta[0] > 0 ? 1.0 : 0.5);")],
 "distortion strong enough that more than a few refinement steps are needed", "undistortion is damped so that it stops short of the solution",
 "BrownDistortion<RGB> d{BrownCoefficients(-0.2, 0, 0, 0, 0)}; d.set_max_iterations(8); Pixel p(0.8f, 0.5f); Pixel q = d.undistort(d.distort(p)); NEAR(q.x, p.x, 1e-3); NEAR(q.y, p.y, 1e-3);", pre=INCD)
seed("C08-norm", "C08", [(CM, "float cosTheta = glm::dot(glm::normalize(direction), Vec3<float>{0, 0, 1});", "float cosTheta = glm::dot(direction, Vec3<float>{0, 0, 1});")],
 "a direction that is not of unit length", "the projected aperture area scales with the direction's length",
 "Cam c; NEAR(c.get_projected_aperture_area(F3(0, 0, 3)) / c.get_projected_aperture_area(F3(0, 0, 1)), 1, 1e-5);", pre=INCC, libs=CAML, stub="cspice tbb")
seed("C08-focal-sphere", "C08", [(CM, "Vec3<float> focal_point = direction * d_;", "Vec3<float> focal_point = glm::normalize(direction) * d_;")],
 "depth of field with an off-axis pixel", "the focal surface is a sphere",
 "Cam c; c.configure_sensor_from_pitch(Resolution(3, 3), units::Micrometer(10000.0)); c.enable_depth_of_field(); c.set_focus_distance(units::Meter(1.0)); auto at = [&](float u) { DeterministicSampler<float> s(0.5f, Vec2<float>(u, 0.5f)); auto r = c.cast_ray(Pixel(2.9f, 2.9f), s); return r.at(1 / r.direction().z); }; F3 a = at(0.9f), b = c.cast_ray(Pixel(2.9f, 2.9f)).direction(); NEAR(a.x, b.x / b.z, 1e-4);", pre=INCC, libs=CAML, stub="cspice tbb")
seed("C08-size-square", "C08", [(CM, "float pixel_size_x = width.to_si_f() / static_cast<float>(resolution.x);", "float pixel_size_x = width.to_si_f() / static_cast<float>(std::max(resolution.x, resolution.y));")],
 "a portrait sensor (taller than wide) given by its width alone", "the pixel pitch is derived from the height of a portrait sensor",
 "Cam c; c.configure_sensor_from_size(Resolution(2, 4), units::Millimeter(20.0)); c.set_focal_length(units::Millimeter(10.0)); NEAR(c.project_point(F3(1, 0, 1)).x, 2, 1e-4);", pre=INCC, libs=CAML, stub="cspice tbb")
seed("C09-explicit", "C09", [(CM, "    is_explicit_matrix_ = false;\n\n    sensor_->set_resolution(resolution);\n\n    if (height.has_value()) {", "    sensor_->set_resolution(resolution);\n\n    if (height.has_value()) {\n        is_explicit_matrix_ = false;")],
 "an explicit intrinsic matrix followed by a sensor size without a height", "the old matrix stays in force after the sensor is reconfigured",
 "Cam c; c.set_intrinsics(3, 5, 1, 1, Resolution(2, 2), units::Millimeter(50.0)); c.configure_sensor_from_size(Resolution(2, 2), units::Millimeter(20.0)); NEAR(c.project_point(F3(1, 0, 1)).x, 1 + 5, 1e-4);", pre=INCC, libs=CAML, stub="cspice tbb")
seed("C09-fstop", "C09", [(CM, "    focal_length_ = anchor_focal_length.to_si_f();\n", "    float n = fstop();\n    focal_length_ = anchor_focal_length.to_si_f();\n    this->aperture_->set_area(units::SquareMeter(PI<float>() * (focal_length_ / n) * (focal_length_ / n) / 4.f));\n")],
 "setting intrinsics after the aperture", "setting the intrinsics changes the aperture's physical size",
 "Cam c; float a = c.get_projected_aperture_area(F3(0, 0, 1)); c.set_intrinsics(3, 5, 1, 1, Resolution(2, 2), units::Millimeter(100.0)); NEAR(c.get_projected_aperture_area(F3(0, 0, 1)) / a, 1, 1e-4);", pre=INCC, libs=CAML, stub="cspice tbb")
IM = "include/huira_impl/images/image.ipp"; CP = "include/huira_impl/images/io/convert_pixel.ipp"; BMP = "include/huira_impl/images/io/bmp_io.ipp"
INCI = '#include "huira/core/spectral_bins.hpp"\n#include "huira/images/image.hpp"\nusing namespace huira;'
INCV = '#include "huira/images/io/convert_pixel.hpp"\nusing namespace huira;'
seed("C12-tall", "C12", [(IM, "    auto y1 = std::min(y0 + 1, resolution_.height - 1);", "    auto y1 = std::min(y0 + 1, std::max(y0, std::min(resolution_.width, resolution_.height) - 1));")],
 "an image taller than it is wide, sampled between its lower rows", "tall images are not interpolated vertically beyond a square",
 "Image<float> m(1, 3, 0.f); m(0, 2) = 1; NEAR(m.sample_bilinear<WrapMode::Clamp>(0.f, 0.75f), 0.5, 1e-5);", pre=INCI, libs="-lfftw3f")
seed("C12-vec-blue", "C12", [(IM, "p01.z * (1.0f - fx) * fy + p11.z * fx * fy)};", "p01.z * (1.0f - fx) * fy + p11.z * fy * fy)};")],
 "an RGB vector image sampled off the diagonal", "the blue channel of interpolated samples is wrong",
 "Image<Vec3<float>> m(2, 2, Vec3<float>(1, 1, 1)); auto v = m.sample_bilinear<WrapMode::Clamp>(0.25f, 0.75f); NEAR(v.z, 1, 1e-5);", pre=INCI, libs="-lfftw3f")
seed("C13-pad", "C13", [(IM, "    const int ph = this->height() + kh - 1;", "    const int ph = this->height() + kh / 2 - 1;")],
 "a large kernel that reaches across the whole image", "the rows at the bottom leak into the top",
 "Image<float> m(1, 3, 0.f), k(5, 7, 0.f); m(0, 2) = 1; k(2, 6) = 1; m.convolve(k); for (int y = 0; y < 3; y++) NEAR(m(0, y), 0, 1e-5);", pre=INCI, libs="-lfftw3f")
seed("C13-center", "C13", [(IM, "                int dst_y = (ky - kcy + ph) % ph;", "                int dst_y = (ky - kcx + ph) % ph;")],
 "a large kernel that is not square", "convolution with a large non-square kernel shifts the image",
 "Image<float> m(3, 3, 0.f), k(5, 7, 0.f); m(1, 1) = 1; k(2, 3) = 1; m.convolve(k); NEAR(m(1, 1), 1, 1e-5);", pre=INCI, libs="-lfftw3f")
seed("C14-double-gray", "C14", [(CP, "double gray = 0.2126 * value.x + 0.7152 * value.y + 0.0722 * value.z;", "double gray = 0.2126 * value.x + 0.7125 * value.y + 0.0722 * value.z;")],
 "a double-precision colour pixel converted to gray", "gray of double-precision pixels is too dark",
 "NEAR(convert_pixel_to_float(Vec3<double>(1, 1, 1)), 1, 1e-4);", pre=INCV)
seed("C14-signed", "C14", [(CP, "    float true_min = static_cast<float>(std::numeric_limits<T>::min());", "    float true_min = -static_cast<float>(std::numeric_limits<T>::max());")],
 "the most negative value of a signed pixel type", "the most negative pixel value converts to a value below the range",
 "EXPECT(integer_to_float<int8_t>(int8_t(-128)) >= 0.f);", pre=INCV)
seed("C15-topdown", "C15", [(BMP, "    int height = (raw_height > 0) ?", "    flip_vertical = flip_vertical || bits_per_pixel == 32;\n    int height = (raw_height > 0) ?")],
 "a 32-bit file stored top-down", "top-down files with transparency are read upside down",
 "std::vector<unsigned char> d(54 + 8, 0); d[0] = 'B'; d[1] = 'M'; d[10] = 54; d[14] = 40; d[18] = 1; d[22] = 0xfe; d[23] = d[24] = d[25] = 0xff; d[26] = 1; d[28] = 32; d[54] = 255; auto b = read_image_bmp(d.data(), d.size()); NEAR(b.image(0, 0)[2], 1, 1e-5);", pre='#include "huira/images/io/bmp_io.hpp"\nusing namespace huira;', libs="-lfftw3f")
seed("C15-offset", "C15", [(BMP, "    std::memcpy(&pixel_offset, &data[10], sizeof(uint32_t));", "    std::memcpy(&pixel_offset, &data[10], sizeof(uint32_t));\n    pixel_offset = std::max<uint32_t>(pixel_offset & 0xffffu, 54u);")],
 "a pixel offset of 64 KiB or more", "the upper half of the pixel offset is ignored: corrupt files are accepted",
 "std::vector<unsigned char> d(54 + 8, 0); d[0] = 'B'; d[1] = 'M'; d[10] = 54; d[12] = 1; d[14] = 40; d[18] = 1; d[22] = 2; d[26] = 1; d[28] = 24; EXPECT(THROWS(read_image_bmp(d.data(), d.size())));", pre='#include "huira/images/io/bmp_io.hpp"\nusing namespace huira;', libs="-lfftw3f")
TGA = "include/huira_impl/images/io/tga_io.ipp"; HDR = "include/huira_impl/images/io/hdr_io.ipp"; CMAP = "include/huira/images/color_map.hpp"; RIM = "include/huira_impl/images/io/read_image.ipp"
INCTGA = '#include "huira/images/io/tga_io.hpp"\nusing namespace huira;'; INCHDR = '#include "huira/images/io/hdr_io.hpp"\nusing namespace huira;'
seed("C16-id", "C16", [(TGA, "        pos += id_length;\n        if (pos > size) {", "        pos += color_map_type == 1 ? std::min<std::size_t>(id_length, 4) : id_length;\n        if (pos > size) {")],
 "a palette file with an image ID longer than four bytes", "the palette is read from inside the image ID",
 "std::vector<unsigned char> d(18 + 6 + 3 + 1, 0); d[0] = 6; d[1] = 1; d[2] = 1; d[5] = 1; d[7] = 24; d[12] = d[14] = 1; d[16] = 8; d[26] = 255; auto b = read_image_tga(d.data(), d.size()); NEAR(b.image(0, 0)[0], 1, 1e-5);", pre=INCTGA, libs="-lfftw3f")
seed("C16-run-cross", "C16", [(TGA, "                for (int i = 0; i < count && pixels_decoded < num_pixels; ++i) {", "                const std::size_t row_left = static_cast<std::size_t>(width) - pixels_decoded % static_cast<std::size_t>(width);\n                for (int i = 0; i < count && static_cast<std::size_t>(i) < row_left; ++i) {")],
 "a run that crosses the end of a row", "runs stop at the end of the row and the rest of the image shifts",
 "std::vector<unsigned char> d(18, 0); d[2] = 11; d[12] = 2; d[14] = 2; d[16] = 8; d[17] = 0x20; for (int c : {0x82, 255, 0x00, 0}) d.push_back((unsigned char)c); d.push_back(0); d.push_back(0); auto b = read_image_tga(d.data(), d.size()); NEAR(b.image(0, 1)[0], 1, 1e-5);", pre=INCTGA, libs="-lfftw3f")
seed("C17-long-run", "C17", [(HDR, "                        int count = byte - 128;", "                        int count = byte & 0x3f;")],
 "a run of 64 pixels or more, or none", "long runs are shortened", 
 "std::vector<unsigned char> d; for (char c : std::string(\"#?RADIANCE\\n\\n-Y 1 +X 64\\n\")) d.push_back((unsigned char)c); for (int c : {2, 2, 0, 64}) d.push_back((unsigned char)c); for (int i = 0; i < 4; i++) { d.push_back(192); d.push_back(136); } EXPECT(!THROWS(read_image_hdr(d.data(), d.size())));", pre=INCHDR, libs="-lfftw3f")
seed("C17-cr", "C17", [(HDR, "            if (cur.pos < cur.size && cur.data[cur.pos] == '\\n') {\n                cur.pos++;\n            }", "            if (cur.pos < cur.size && (cur.data[cur.pos] == '\\n' || cur.data[cur.pos] == '\\r')) {\n                cur.pos++;\n            }")],
 "a header whose lines end in carriage returns alone", "the empty line after the header is swallowed",
 "std::vector<unsigned char> d; for (char c : std::string(\"#?RADIANCE\\r\\r-Y 1 +X 1\\r\")) d.push_back((unsigned char)c); for (int i = 0; i < 4; i++) d.push_back(130); EXPECT(!THROWS(read_image_hdr(d.data(), d.size())));", pre=INCHDR, libs="-lfftw3f")
seed("C18-depth", "C18", [(CMAP, "        if (d > max_depth) {\n            max_depth = d;\n        }", "        else if (d > max_depth) {\n            max_depth = d;\n        }")],
 "the farthest depth comes first in the image", "depths that decrease along the image map to garbage",
 "Image<float> m(2, 1); m(0, 0) = 4; m(1, 0) = 2; auto o = depth_map(m); NEAR(o(0, 0)[0], 0.8, 1e-5);", pre='#include "huira/images/color_map.hpp"\nusing namespace huira;', libs="-lfftw3f")
seed("C18-mono-alpha", "C18", [(RIM, "        return read_image_tga_mono(data, size, read_alpha);", "        return read_image_tga_mono(data, size);")],
 "gray reading of a TGA file without transparency", "transparency is read although not asked for",
 "std::vector<unsigned char> d(22, 0); d[2] = 2; d[12] = d[14] = 1; d[16] = 32; auto b = read_image_mono(IMAGE_FORMAT_TGA, d.data(), d.size(), false); EXPECT(b.alpha.empty());", pre='#include "huira/util/paths.hpp"\n#include "huira/images/io/read_image.hpp"\nusing namespace huira;', libs="-lpng -lturbojpeg -ltiff -lcfitsio -lfftw3f")
SEN = "include/huira_impl/cameras/sensors/simple_sensor.ipp"; SEM = "include/huira_impl/cameras/sensors/sensor_model.ipp"; APE = "include/huira_impl/cameras/apertures/aperture.ipp"; CAP = "include/huira_impl/cameras/apertures/circular_aperture.ipp"
INCA = '#include "huira/core/spectral_bins.hpp"\n#include "huira/cameras/apertures/circular_aperture.hpp"\nusing namespace huira; using A = CircularAperture<RGB>; using namespace units;'
seed("C10-dark-short", "C10", [(SEN, "        dark_e = this->config_.dark_current * dt;", "        dark_e = this->config_.dark_current * std::max(dt, 0.5f);")],
 "noise on, a short exposure and a strong dark current", "dark current does not shrink with short exposures",
 "Cam c; c.configure_sensor_from_pitch(Resolution(2, 2), units::Micrometer(10.0)); auto fb = c.make_frame_buffer(); fb.enable_sensor_response(); SimpleSensorConfig<RGB> g; g.dark_current = 1e5f; g.read_noise = 0; g.bias_level_dn = 0; g.bit_depth = 16; g.gain = 1; SimpleSensor<RGB> s(g); s.readout(fb, units::Second(0.01)); EXPECT(fb.sensor_response()(0, 0)[0] * 65535 < 2000);", pre=INCC, libs=CAML, stub="cspice tbb")
seed("C10-qe-one", "C10", [(SEM, "    if (!qe.valid_ratio()) {", "    if (!qe.valid_ratio() || qe.max() >= 1.f) {")],
 "an ideal sensor with a quantum efficiency of exactly one", "perfect quantum efficiency is rejected",
 "SimpleSensor<RGB> s; EXPECT(!THROWS(s.set_quantum_efficiency(RGB{1, 0.5f, 0.5f})));", pre=INCC, libs=CAML, stub="cspice tbb")
seed("C10-well", "C10", [(SEN, "    accumulated_e = std::min(accumulated_e, config.full_well_capacity);", "    accumulated_e = std::min(accumulated_e, config.full_well_capacity / std::max(config.gain, 1.f));")],
 "a saturated pixel with a gain above one electron per count", "saturation sets in too early",
 "Cam c; c.configure_sensor_from_pitch(Resolution(2, 2), units::Micrometer(10.0)); auto fb = c.make_frame_buffer(); fb.enable_sensor_response(); fb.received_power().fill(RGB{1, 1, 1}); SimpleSensorConfig<RGB> g; g.simulate_noise = false; g.bit_depth = 16; g.gain = 2; SimpleSensor<RGB> s(g); s.readout(fb, units::Second(1.0)); NEAR(fb.sensor_response()(0, 0)[0] * 65535, 10000, 1);", pre=INCC, libs=CAML, stub="cspice tbb")
seed("C11-area", "C11", [(CAP, "    radius_ = diameter_ / 2.f;\n}", "    radius_ = std::min(radius_, diameter_ / 2.f);\n}")],
 "an aperture whose area is increased after construction", "lens samples do not reach the edge of an enlarged aperture",
 "A a{Meter(0.1)}; a.set_area(SquareMeter(3.14159265)); NEAR(a.get_bounding_radius().to_si(), 1, 1e-4);", pre=INCA, libs=CAML, stub="cspice tbb")
seed("C11-bank", "C11", [(APE, "    return defocus_cache_.kernels[static_cast<std::size_t>(by * defocus_cache_.banks + bx)];", "    return defocus_cache_.kernels[static_cast<std::size_t>(bx * defocus_cache_.banks + by)];")],
 "a blurred source off the diagonal of its pixel", "blurred sources are shifted along the wrong axis",
 "A a{Meter(4.0)}; a.build_defocus_kernel(Diopter(0.5), Meter(2e-3), Meter(2e-3), Meter(2e-3), 4); auto& m = a.get_defocus_kernel(0.8f, 0.1f); int h = a.get_defocus_half_extent(); EXPECT(m(h + 1, h) > m(h - 1, h) + 0.05f);", pre=INCA, libs=CAML, stub="cspice tbb")
seed("C11-wrap", "C11", [(CAP, "        theta = (PI<float>() / 2.f) - (PI<float>() / 4.f) * (a / b);", "        theta = (PI<float>() / 2.f) - (PI<float>() / 4.f) * std::abs(a / b);")],
 "lens samples in the upper left or lower right of the square", "part of the lens is never sampled",
 "A a{Meter(2.0)}; DeterministicSampler<float> s(0.5f, Vec2<float>(0.3f, 0.9f)); EXPECT(a.sample(s).x < 0);", pre=INCA, libs=CAML, stub="cspice tbb")
FR = "include/huira_impl/render/frustum.ipp"; TA = "include/huira_impl/render/trajectory_arc.ipp"
INCF = '#include "huira/core/spectral_bins.hpp"\n#include "huira/util/logger.hpp"\n#include "huira/render/frustum.hpp"\nusing namespace huira; using F3 = Vec3<float>; using Fr = Frustum<RGB>;'
seed("C19-bitangent", "C19", [(FR, "        a.tangent.bitangent + t * (b.tangent.bitangent - a.tangent.bitangent);", "        a.tangent.bitangent + t * (b.tangent.bitangent - a.tangent.tangent);")],
 "a clipped triangle with tangents", "the tangent frame is distorted where a triangle is cut",
 "Triangle<RGB> t; t.vertices[0].position = {-1, 0, 1}; t.vertices[1].position = {1, 0, 1}; t.vertices[2].position = {1, 1, 1}; Tangent g; g.tangent = {1, 0, 0}; g.bitangent = {0, 1, 0}; t.tangents = std::array<Tangent, 3>{g, g, g}; auto r = Fr({F3(1, 0, 0)}).clip_triangle(t); for (auto& q : r) for (auto& x : *q.tangents) NEAR(x.bitangent.y, 1, 1e-5);", pre=INCF)
seed("C19-sweep", "C19", [(FR, "        if (lo < hi) {\n            result.emplace_back(lo, hi);\n        }\n", "        if (lo < hi) {\n            result.emplace_back(lo, hi);\n            if (b.size() > 1 && hi == b[j].second) {\n                ++i;\n            }\n        }\n        if (i == a.size()) {\n            break;\n        }\n")],
 "an arc that leaves the field of view through one plane, comes back, and crosses another plane", "the second visible part of an arc is lost",
 "auto r = Fr({F3(0, 0, 1), F3(1, 0, 0)}).clip_arc(TrajectoryArc({F3(0.25f, 0, 1), F3(-0.25f, 0, 1), F3(0.25f, 0, 1)})); EXPECT(r.size() == 2);", pre=INCF)
seed("C20-forward", "C20", [(TA, "                rhs[i] -= factor * rhs[i - 1];\n", "                rhs[i] -= h / diag[0] * rhs[i - 1];\n")],
 "an arc through at least five samples", "longer splines are not smooth",
 "std::vector<F3> v{F3(0, 0, 1), F3(0, 0, 1), F3(1, 0, 1), F3(0, 0, 1), F3(0, 0, 1)}; TrajectoryArc a(v); float e = 0.0004f; for (float t : {0.25f, 0.5f, 0.75f}) { float l = (a.evaluate(t).x - a.evaluate(t - e).x) / e, r = (a.evaluate(t + e).x - a.evaluate(t).x) / e; NEAR(l, r, 0.08f); }", pre=INCF)
seed("C20-order", "C20", [(TA, "        if (t1 > t2) {\n            std::swap(t1, t2);\n        }\n", "        if (a > 0.0f && t1 > t2) {\n            std::swap(t1, t2);\n        }\n")],
 "a parabolic arc that bulges towards the plane and crosses it twice", "crossings come out of order",
 "auto r = TrajectoryArc({F3(-0.2f, 0, 1), F3(0.3f, 0, 1), F3(-0.1f, 0, 1)}).find_plane_crossings(F3(1, 0, 0)); EXPECT(r.size() == 2); EXPECT(r[0] < r[1]);", pre=INCF)
EL = "include/huira_impl/geometry/ellipsoid.ipp"
INCEL = '#include "huira/util/logger.hpp"\n#include "huira/core/spectral_bins.hpp"\n#include "huira/geometry/ellipsoid.hpp"\nusing namespace huira; using F3 = Vec3<float>;\nstruct E : Ellipsoid<RGB> { E(float x, float y, float z) : Ellipsoid<RGB>(units::Meter(x), units::Meter(y), units::Meter(z)) { this->set_device(std::make_shared<EmbreeDevice>()); s = this->blas(); } RTCScene s; };\nstatic bool shoot(const E& e, F3 o, F3 d, float a, float b, HitRecord& h) { RTCRayHit r{}; r.ray.org_x = o.x; r.ray.org_y = o.y; r.ray.org_z = o.z; r.ray.dir_x = d.x; r.ray.dir_y = d.y; r.ray.dir_z = d.z; r.ray.tnear = a; r.ray.tfar = b; r.ray.mask = ~0u; r.hit.geomID = RTC_INVALID_GEOMETRY_ID; rtcIntersect1(e.s, &r); h.t = r.ray.tfar; h.u = r.hit.u; h.v = r.hit.v; h.Ng = F3(r.hit.Ng_x, r.hit.Ng_y, r.hit.Ng_z); return r.hit.geomID != RTC_INVALID_GEOMETRY_ID; }'
seed("C21-inside", "C21", [(EL, "    float C = glm::dot(O_s, O_s) - 1.0f;\n", "    float C = glm::dot(O_s, O_s) - 1.0f;\n    if (B > 0.0f && RTCRayN_tnear(ray, args->N, 0) >= 0.0f) {\n        return; // moving away from the body\n    }\n")],
 "a ray that starts inside the ellipsoid, beyond its centre", "rays leaving the inside of an ellipsoid never meet its surface",
 "E e(1, 2, 1); HitRecord h; EXPECT(shoot(e, F3(0, 0.5f, 0.1f), F3(0, 1, 0), 0, 100, h));", pre=INCEL, libs="-lembree4")
seed("C21-normal", "C21", [(EL, "        Vec3<float> normal = (P_s * inv_r) * r_max;\n", "        Vec3<float> normal = (RTCRayN_tnear(ray, args->N, 0) > 0.0f ? P_s * r : P_s * inv_r) * r_max;\n")],
 "a ray whose extent begins beyond its origin, on an ellipsoid that is not a sphere", "the geometric normal of a hit is not perpendicular to the surface",
 "E e(1, 2, 1); HitRecord h; F3 p(0.6f, 1.6f, 0); EXPECT(shoot(e, p * 3.0f, -p, 0.5f, 100, h)); F3 g = glm::normalize(F3(0.6f, 0.4f, 0)), n = glm::normalize(h.Ng); NEAR(glm::dot(g, n), 1, 1e-4);", pre=INCEL, libs="-lembree4")
ME = "include/huira_impl/geometry/mesh.ipp"; IA = "include/huira_impl/render/interaction.ipp"; MAT = "include/huira_impl/materials/material.ipp"; SU = "include/huira/materials/sampling_utils.hpp"; BS = "include/huira_impl/materials/bsdfs/"
INCM = '#include "huira/util/logger.hpp"\n#include "huira/core/spectral_bins.hpp"\n#include "huira/geometry/mesh.hpp"\nusing namespace huira; using F3 = Vec3<float>;'
INCB = '#include "huira/util/logger.hpp"\n#include "huira/core/spectral_bins.hpp"\n#include "huira/scene/scene_object.hpp"\n#include "huira/materials/material.hpp"\n#include "huira/materials/bsdfs/hapke_bsdf.hpp"\n#include "huira/materials/bsdfs/mcewen_bsdf.hpp"\n#include "huira/materials/bsdfs/cook_torrance_bsdf.hpp"\nusing namespace huira; using F3 = Vec3<float>; using S = RGB;\nstatic Interaction<S> flat() { Interaction<S> i; i.normal_s = i.normal_g = F3(0, 0, 1); i.tangent = F3(1, 0, 0); i.bitangent = F3(0, 1, 0); return i; }\ntemplate <class T> static std::shared_ptr<Image<T>> solid(T v) { return std::make_shared<Image<T>>(1, 1, v); }\nstatic std::shared_ptr<Material<S>> make() { return std::make_shared<Material<S>>(std::make_shared<CookTorranceBSDF<S>>(), solid<S>(S{1}), solid(1.f), solid(1.f), solid(1.f), solid(F3(0, 0, 1)), solid<S>(S{1}), solid<S>(S{1})); }'
seed("C22-uv", "C22", [(ME, "    return w * vertex_buffer_[idx0].uv + hit.u * vertex_buffer_[idx1].uv +\n           hit.v * vertex_buffer_[idx2].uv;", "    return w * vertex_buffer_[idx0].uv + hit.v * vertex_buffer_[idx1].uv +\n           hit.u * vertex_buffer_[idx2].uv;")],
 "transparency looked up off the diagonal of a triangle", "texture lookups for transparency are mirrored within each triangle",
 "VertexBuffer<RGB> v(3); v[1].uv = {1, 0}; v[2].uv = {0, 1}; Mesh<RGB> m(IndexBuffer{0, 1, 2}, v); HitRecord h; h.u = 0.5f; h.v = 0.25f; auto q = static_cast<const Geometry<RGB>&>(m).compute_uv(h); NEAR(q.x, 0.5, 1e-5);", pre=INCM, libs="-lembree4")
seed("C22-tangents", "C22", [(ME, "    if (tangent_buffer_.size() != 0 && tangent_buffer_.size() != vertex_buffer_.size()) {", "    if (tangent_buffer_.size() != 0 && tangent_buffer_.size() != vertex_buffer_.size() &&\n        tangent_buffer_.size() != index_buffer_.size()) {")],
 "a tangent buffer with one tangent per index", "tangents that do not belong to the vertices are accepted",
 "VertexBuffer<RGB> v(4); EXPECT(THROWS(Mesh<RGB>(IndexBuffer{0, 1, 2}, v, TangentBuffer(3))));", pre=INCM, libs="-lembree4")
seed("C23-threshold", "C23", [(IA, "        std::abs(intersection.y) < threshold ?", "        intersection.y < threshold ?")],
 "a hit far away in negative y", "rays leaving such surfaces start on the surface itself",
 "F3 q = offset_intersection_<float>(F3(1, -1e6f, 1), F3(0, 1, 0)); EXPECT(q.y > -1e6f);", pre='#include "huira/util/logger.hpp"\n#include "huira/core/spectral_bins.hpp"\n#include "huira/render/interaction.hpp"\nusing namespace huira; using F3 = Vec3<float>;')
seed("C23-down", "C23", [("include/huira/render/interaction.hpp", "bitangent = Vec3<float>{b, sign + normal_s.y * normal_s.y * a, -normal_s.y};", "bitangent = Vec3<float>{b, 1.0f + sign * normal_s.y * normal_s.y * a, -normal_s.y};")],
 "a normal pointing down", "the frame of downward normals is skewed",
 "F3 n(0, 0.6f, -0.8f), t, b; build_default_tangent_frame(n, t, b); NEAR(glm::dot(b, n), 0, 1e-5); NEAR(glm::dot(glm::cross(n, t), b), 1, 1e-5);", pre='#include "huira/util/logger.hpp"\n#include "huira/core/spectral_bins.hpp"\n#include "huira/render/interaction.hpp"\nusing namespace huira; using F3 = Vec3<float>;')
seed("C24-mix", "C24", [(BS + "cook_torrance_bsdf.ipp", "    const float spec_weight = 0.5f * (1.0f + metallic);\n\n    Vec3<float> wi;", "    const float spec_weight = std::max(0.5f, metallic);\n\n    Vec3<float> wi;")],
 "a partly metallic surface", "samples no longer follow the density that weights them",
 "CookTorranceBSDF<S> b; ShadingParams<S> p; p.metallic = 0.5f; p.roughness = 1; auto s = b.sample(F3(0, 0, 1), flat(), p, 0.75f, 0); NEAR(s.wi.z, 1, 1e-3);", pre=INCB, libs="-lfftw3f")
seed("C24-shoe", "C24", [(BS + "hapke_bsdf.ipp", "    return B0_ / (1.0f + (tan_half_alpha / h_));", "    return B0_ / (1.0f + (tan_half_alpha / std::max(h_, 0.05f)));")],
 "a narrow opposition surge", "the opposition surge is too broad",
 "HapkeBSDF<S> b(0.01f, 1.f, 0.f, 1.f); ShadingParams<S> p; p.albedo = S{0.0f}; p.albedo = S{1e-3f}; float t = std::tan(std::acos(0.8f) / 2), B = 1 / (1 + t / 0.01f); auto f = b.eval(F3(0, 0, 1), F3(0.6f, 0, 0.8f), flat(), p); NEAR(f[0] / (1e-3f / (4 * 3.14159265f * 1.8f)), 1 + B, 0.02);", pre=INCB, libs="-lfftw3f")
seed("C24-mcewen", "C24", [(BS + "mcewen_bsdf.ipp", "    float alpha = std::acos(cos_alpha);", "    float alpha = std::acos(std::max(cos_alpha, 0.0f));")],
 "light and viewer more than a right angle apart", "the photometric blend stops changing beyond a right angle",
 "McEwenBSDF<S> b; ShadingParams<S> p; p.albedo = S{1}; F3 o(0.96f, 0, 0.28f), i(-0.96f, 0, 0.28f); float al = std::acos(2 * 0.28f * 0.28f - 1), be = std::exp(-al * 3 / 3.14159265f), w = (1 - be) / 3.14159265f + be / (4 * 3.14159265f * 0.56f); NEAR(b.eval(o, i, flat(), p)[0], w, 1e-4);", pre=INCB, libs="-lfftw3f")
seed("C25-grazing", "C25", [(SU, "    t2 = (1.0f - s) * std::sqrt(std::max(0.0f, 1.0f - t1 * t1)) + s * t2;", "    t2 = (1.0f - s) * (1.0f - t1 * t1) + s * t2;")],
 "visible normals seen from aside, off the middle of the disk", "visible normals are not sampled by their projected area",
 "auto s = sampling::ggx_vndf_sample(F3(0.6f, 0, 0.8f), 1, 0.64f, 0.125f); F3 h = s.half_vector, T1(0, 1, 0), T2(-0.8f, 0, 0.6f); float p1 = glm::dot(h, T1), p2 = glm::dot(h, T2), q = (p2 - 0.1f * std::sqrt(1 - p1 * p1)) / 0.9f; NEAR(p1 * p1 + q * q, 0.64, 1e-3);", pre='#include <algorithm>\n' + '#include "huira/util/logger.hpp"\n#include "huira/materials/sampling_utils.hpp"\nusing namespace huira; using F3 = Vec3<float>;')
seed("C25-ggx", "C25", [(SU, "    const float cos_theta2 = (1.0f - u1) / (1.0f + (alpha2 - 1.0f) * u1);", "    const float cos_theta2 = (1.0f - u1) / std::max(1.0f + (alpha2 - 1.0f) * u1, 0.05f);")],
 "a smooth surface and a random number close to one", "the tail of the highlight is not sampled",
 "auto s = sampling::ggx_sample_half_vector(0.99f, 0, 0.1f); float c2 = s.half_vector.z * s.half_vector.z; NEAR((1 - c2) / (1 + (1e-4f - 1) * c2), 0.99, 1e-3);", pre='#include <algorithm>\n' + '#include "huira/util/logger.hpp"\n#include "huira/materials/sampling_utils.hpp"\nusing namespace huira; using F3 = Vec3<float>;')
seed("C26-emissive", "C26", [(MAT, "    emissive_image_ = default_emissive_image_;\n    emissive_factor_ = TSpectral{0.0f};", "    emissive_image_ = default_emissive_image_;")],
 "an emissive texture set and reset", "a reset material keeps glowing",
 "auto m = make(); m->set_emissive_image(solid<S>(S{0.5f})); m->reset_emissive(); NEAR(m->evaluate(flat()).params.emission[0], 0, 1e-6);", pre=INCB, libs="-lfftw3f")
seed("C26-normal", "C26", [(MAT, "            ts_normal.y *= normal_factor_;\n", "            ts_normal.y *= std::min(normal_factor_, 1.0f);\n"), (MAT, "namespace huira {\n/**\n * @brief Evaluate", "#include <algorithm>\nnamespace huira {\n/**\n * @brief Evaluate")],
 "a normal texture exaggerated by a factor above one", "bumps are exaggerated along one axis only",
 "auto m = make(); m->set_normal_image(solid(F3(0, 0.6f, 0.8f))); m->set_normal_factor(2); auto n = m->evaluate(flat()).isect.normal_s; NEAR(n.y / n.z, 1.5, 1e-4);", pre=INCB, libs="-lfftw3f")
seed("C26-alpha", "C26", [(MAT, "    alpha_factor_ = alpha_factor;\n    if (alpha_factor_ < 1.0f) {\n        has_alpha_ = true;\n    }", "    alpha_factor_ = alpha_factor;\n    has_alpha_ = alpha_factor_ < 1.0f;")],
 "an alpha texture followed by a factor of one", "textured transparency is ignored",
 "auto m = make(); m->set_alpha(solid(0.5f)); m->set_alpha_factor(1); EXPECT(m->has_alpha());", pre=INCB, libs="-lfftw3f")
LI = "include/huira_impl/assets/lights/sphere_light.ipp"; MED = "include/huira/volumes/medium.hpp"; SD = "include/huira_impl/stars/io/star_data.ipp"; SCA = "include/huira_impl/stars/io/star_catalog.ipp"; TY = "include/huira_impl/stars/io/load_tycho2.ipp"
INCL = '#include "huira/util/logger.hpp"\n#include "huira/units/units.hpp"\n#include "huira/core/spectral_bins.hpp"\n#include "huira/scene/scene_object.hpp"\n#include "huira/assets/lights/sphere_light.hpp"\n#include "huira/volumes/density/constant_density_field.hpp"\n#include "huira/volumes/scattering/isotropic_scatter.hpp"\n#include "huira/volumes/medium_stack.hpp"\nusing namespace huira; using S = RGB; using F3 = Vec3<float>;'
INCY = '#include <iostream>\n#include <iomanip>\n#include <fstream>\n#include <filesystem>\n#include "huira/util/logger.hpp"\n#include "huira/core/types.hpp"\n#include "huira/core/constants.hpp"\n#include "huira/core/physics.hpp"\n#include "huira/stars/io/star_catalog.hpp"\n#include "huira/stars/io/load_tycho2.hpp"\n#include <unistd.h>\nusing namespace huira;\nstatic std::string tmpf() { char t[] = "/tmp/vpdemoXXXXXX"; int f = mkstemp(t); close(f); return t; }'
seed("C27-below", "C27", [(LI, "    if (std::abs(w.z) < 0.999f) {", "    if (w.z < 0.999f) {")],
 "a light straight below the shaded point", "samples towards a light straight below are not numbers",
 "SphereLight<S> l(units::Meter(1.), units::Watt(1.)); Interaction<S> i; i.position = F3(0); Transform<float> t; t.position = F3(0, 0, -5); RandomSampler<float> q(1); auto s = l.sample_li(i, t, q); EXPECT(s && s->wi.z < -0.9f);", pre=INCL, libs="-lembree4 -lfftw3f")
seed("C27-clamp", "C27", [(MED, "            Tr[c] = std::exp(-ext[c] * t);", "            Tr[c] = std::exp(-std::min(ext[c] * t, 10.0f));"), (MED, "#include <memory>\n", "#include <algorithm>\n#include <memory>\n")],
 "optically thick media", "thick media let a fixed share of light through",
 "Medium<S> m(std::make_shared<ConstantDensityField<S>>(S{2}, S{0}), std::make_shared<IsotropicPhaseFunction<S>>()); RandomSampler<float> q(1); EXPECT(m.evaluate_transmittance(Ray<S>(F3(0), F3(0, 0, 1)), 10, q)[0] < 1e-8f);", pre=INCL, libs="-lembree4 -lfftw3f")
seed("C27-density", "C27", [(LI, "    // to prevent catastrophic cancellation in floating point math\n    if (solid_angle < 1e-7f) {", "    // to prevent catastrophic cancellation in floating point math\n    if (solid_angle < 1e-1f) {")],
 "a light of moderate size, seen under less than a tenth of a steradian", "the density of light samples is that of a flat disc",
 "SphereLight<S> l(units::Meter(1.), units::Watt(1.)); Interaction<S> i; i.position = F3(0); Transform<float> t; t.position = F3(0, 0, 6); RandomSampler<float> q(1); auto s = l.sample_li(i, t, q); NEAR(s->pdf * 2 * 3.14159265 * (1 - std::sqrt(35.0) / 6), 1, 3e-3);", pre=INCL, libs="-lembree4 -lfftw3f")
seed("C28-epoch", "C28", [(SD, "    double years_DEC = 2000.0 - static_cast<double>(epochDEC);", "    double years_DEC = 2000.0 - static_cast<double>(epochRA);")],
 "a moving star whose right ascension and declination were observed at different times", "its declination is brought to the wrong epoch",
 "StarData s; s.RA = 1; s.DEC = 0.5; s.pmRA = 0; s.pmDEC = 1000; s.normalize_epoch(1991.5, 1992.5); NEAR(s.DEC, 0.5 + 1000 * 3.14159265358979 / 648000000 * 7.5, 1e-10);", pre=INCY)
seed("C28-equal", "C28", [(SCA, "        if (temp.visual_magnitude <= maximum_magnitude) {", "        if (temp.visual_magnitude < maximum_magnitude) {")],
 "a star exactly as faint as the limit", "it is left out when the catalogue is read",
 "StarCatalog c; StarData s; s.RA = s.DEC = 0; s.visual_magnitude = 6; c.add_star(s); auto p = tmpf(); c.write_star_data(p); auto r = StarCatalog::read_star_data(p, 6); std::filesystem::remove(p); EXPECT(r.size() == 1);", pre=INCY)
seed("C28-kind", "C28", [(SCA, "    header.catalog_type = catalog_type_;\n", "    header.catalog_type = valid_stars.size() == star_data_.size() ? catalog_type_ : CatalogType::Unknown;\n")],
 "a catalogue with a star of unknown magnitude", "the saved catalogue forgets what its identifiers mean",
 "StarCatalog c; StarData s; s.RA = s.DEC = 0; c.add_star(s); s.visual_magnitude = 1; s.id = pack_tycho2_id(1, 2, 3); c.add_star(s); c.set_catalog_type(CatalogType::Tycho2); auto p = tmpf(); c.write_star_data(p); auto r = StarCatalog::read_star_data(p); std::filesystem::remove(p); EXPECT(r.get_star_id(0) == \"TYC 1-2-3\");", pre=INCY)
TI = "include/huira_impl/core/time.ipp"; NOD = "include/huira_impl/scene/node.ipp"; NP = "include/huira/scene/state_callbacks/nadir_point.hpp"; ALL = "-lembree4 -lassimp -lfftw3f -lpng -lturbojpeg -ltiff -lcfitsio"
INCT = '#include "spicemodel/spice_model.hpp"\n#include "huira/util/logger.hpp"\n#include "huira/core/time.hpp"\n#include "huira/core/spice.hpp"\n#include "huira/core/interval.hpp"\n#include "huira/scene/state_callbacks/nadir_point.hpp"\nusing namespace huira;'
INCN = '#include "spicemodel/spice_model.hpp"\n#include "huira/huira.hpp"\nusing namespace huira; using S = RGB; using D3 = Vec3<double>; using T = Transform<double>;\nstruct Root : FrameNode<S> { Root() : FrameNode<S>(nullptr) { spice::lsk_loaded.store(true); this->set_spice("SOLAR SYSTEM BARYCENTER", "J2000"); } };\nstatic T see(const Node<S>& n, double ep, double t, ObservationMode m = ObservationMode::TRUE_STATE, T o = T{}) { return n.get_apparent_transform(m, Time::from_et(ep), Time::from_et(t), o); }\nstatic void base() { sm::frame = [](const char*, double, double (*M)[3], double* w) { for (int i = 0; i < 3; ++i) { w[i] = 0; for (int j = 0; j < 3; ++j) M[i][j] = i == j; } }; sm::body = [](const char*, double, double* s) { for (int k = 0; k < 6; ++k) s[k] = 0; }; }'
seed("C29-leap", "C29", [(TI, '        double delta_et = spice::deltet(seconds_past_j2000, "UTC");', '        double delta_et = spice::deltet(seconds_past_j2000, "ET");')],
 "a UTC Julian date within about a minute of a leap second", "the date is one second off",
 "spice::lsk_loaded.store(true); sm::leap_at = 1e8; double s = 1e8 + 20; Time t = Time::from_julian_date(2451545.0 + s / 86400, TimeScale::UTC); NEAR(t.et(), s + 32.184 + 0.001 + 33, 0.01);", pre=INCT, stub="cspice spicemodel")
seed("C29-utc", "C29", [(TI, '    if (format.find("::UTC") == std::string::npos) {', '    if (format.find("UTC") == std::string::npos) {')],
 "a format that mentions UTC as text", "the time is written in another scale than UTC",
 'spice::lsk_loaded.store(true); EXPECT(Time::from_et(0).to_utc_string("YYYY UTC").find("::UTC") != std::string::npos);', pre=INCT, stub="cspice spicemodel")
seed("C29-nadir", "C29", [(NP, "        Vec3<float> z_axis = -glm::normalize(position);\n        Vec3<float> y_axis = glm::normalize(velocity);\n        Vec3<float> x_axis = glm::normalize(glm::cross(y_axis, z_axis));\n        y_axis = glm::normalize(glm::cross(z_axis, x_axis));\n", "        Vec3<float> z_axis = -glm::normalize(position);\n        Vec3<float> y_axis = glm::normalize(velocity);\n        Vec3<float> x_axis = glm::normalize(glm::cross(y_axis, z_axis));\n        z_axis = glm::normalize(glm::cross(x_axis, y_axis));\n")],
 "a velocity not perpendicular to the position", "the third axis misses the nadir",
 "ZDownYForwardCallback c; c.evaluate(Time::from_et(0), Vec3<double>(0, 0, 7e6), Vec3<double>(3000, 0, 4000)); Vec3<double> z = c.rotation * Vec3<double>(0, 0, 1); NEAR(z.z, -1, 1e-5);", pre=INCT, stub="cspice spicemodel")
seed("C30-spin", "C30", [(NOD, "Node<TSpectral>::get_local_rotation_at_(const Time& epoch, const Time& t_obs, double dt) const\n{\n    double total_dt = (t_obs.et() - dt) - epoch.et();", "Node<TSpectral>::get_local_rotation_at_(const Time& epoch,\n                                        const Time& t_obs,\n                                        [[maybe_unused]] double dt) const\n{\n    double total_dt = t_obs.et() - epoch.et();")],
 "a spinning body seen from light minutes away", "the body is seen turned as it is now, not as when the light left",
 "base(); Root r; auto a = r.new_child().lock(); a->set_position(D3(SPEED_OF_LIGHT<double>() * 100, 0, 0)); a->set_angular_velocity(D3(0, 0, 0.01)); D3 x = see(*a, 0, 0, ObservationMode::GEOMETRIC_STATE).rotation * D3(1, 0, 0); NEAR(x.y, std::sin(-1.0), 1e-6);", pre=INCN, libs=ALL, stub="cspice tbb spicemodel")
seed("C30-aberration", "C30", [(NOD, "            Vec3<double> u_app = compute_aberrated_direction(u, observer_ssb_state.velocity);", "            Vec3<double> u_app = compute_aberrated_direction(\n                u, observer_ssb_state.velocity - apparent_state.velocity);")],
 "a moving body", "the body's own motion aberrates it a second time",
 "base(); Root r; auto a = r.new_child().lock(); a->set_position(D3(1e9, 0, 0)); a->set_velocity(D3(0, 3e4, 0)); T o; o.velocity = D3(0, 1e4, 0); T w = see(*a, 0, 0, ObservationMode::ABERRATED_STATE, o), g = see(*a, 0, 0, ObservationMode::GEOMETRIC_STATE, o); D3 d = compute_aberrated_direction(glm::normalize(g.position), o.velocity); NEAR(w.position.y, d.y * glm::length(g.position), 1e-3);", pre=INCN, libs=ALL, stub="cspice tbb spicemodel")
seed("C30-callback", "C30", [(NOD, "        transform_callback_->evaluate(t_emit);", "        transform_callback_->evaluate(t_obs);")],
 "a state callback on a distant node", "the callback is asked for the wrong moment",
 "base(); Root r; auto a = r.new_child().lock(); static double seen; struct L : StateCallback { void evaluate(const Time& t) override { seen = t.et(); state.position = D3(SPEED_OF_LIGHT<double>() * 100, 0, 0); } }; a->set_custom_state_callback<L>(); see(*a, 0, 1000, ObservationMode::GEOMETRIC_STATE); NEAR(seen, 900, 1e-3);", pre=INCN, libs=ALL, stub="cspice tbb spicemodel")
seed("C30-velocity", "C30", [(NOD, "    if (position_mode_ == TransformMode::SPICE_TRANSFORM &&\n        rotation_mode_ == TransformMode::SPICE_TRANSFORM) {\n        Transform<double> ssb_state{};", "    if (position_mode_ == TransformMode::SPICE_TRANSFORM &&\n        rotation_mode_ == TransformMode::SPICE_TRANSFORM && parent_ == nullptr) {\n        Transform<double> ssb_state{};")],
 "a node with its own ephemeris below a scaled node", "its ephemeris state is scaled by its parent",
 "base(); Root r; auto a = r.new_child().lock(); a->set_spice(\"A\", \"F\"); a->set_scale(2, 2, 2); auto b = a->new_child().lock(); b->set_spice(\"B\", \"F\"); NEAR(see(*b, 0, 0).scale.x, 1, 1e-9);", pre=INCN, libs=ALL, stub="cspice tbb spicemodel")
NR = "include/huira_impl/scene/name_registry.ipp"; SC = "include/huira_impl/scene/scene.ipp"
INCS = '#include "spicemodel/spice_model.hpp"\n#include "huira/huira.hpp"\nusing namespace huira; using S = RGB; using D3 = Vec3<double>;\nstatic auto lamp(Scene<S>& sc, const char* n) { spice::lsk_loaded.store(true); return sc.new_sphere_light(units::Meter(1.), units::Watt(1.), n); }'
seed("C31-collide", "C31", [(NR, "        int counter = 1;\n        std::string base_name = name;\n        do {\n            name = base_name + \"_\" + std::to_string(counter++);\n        } while (name_registry_.contains(name));", "        // Every object sharing the name has its own number:\n        std::size_t counter = 0;\n        for (const auto& entry : name_registry_) {\n            counter += entry.first.starts_with(name) ? 1 : 0;\n        }\n        name += \"_\" + std::to_string(counter);")],
 "objects of the same name added, one deleted, another added", "a new object takes the name of an old one, which is found no more",
 "spice::lsk_loaded.store(true); Scene<S> sc; auto a = lamp(sc, \"x\"), b = lamp(sc, \"x\"), c = lamp(sc, \"x\"); sc.delete_light(b); auto d = lamp(sc, \"x\"); EXPECT(c.name() != d.name());", pre=INCS, libs=ALL, stub="cspice tbb spicemodel")
seed("C31-twins", "C31", [(SC, "                            frame_parent->delete_child(child_node);\n                            deleted = true;", "                            frame_parent->delete_child(child_node);\n                            return;")],
 "a frame showing the same asset twice", "one instance of a deleted asset stays",
 "spice::lsk_loaded.store(true); Scene<S> sc; auto a = lamp(sc, \"x\"); auto f = sc.root.new_subframe(); f.new_instance(a); auto j = f.new_instance(a); sc.delete_light(a); EXPECT(!j.valid());", pre=INCS, libs=ALL, stub="cspice tbb spicemodel")
seed("C31-rename", "C31", [(NR, "    name_registry_.erase(old_name);\n    name_registry_[new_name] = object;\n", "    auto entry = name_registry_.extract(old_name);\n    entry.key() = name;\n    entry.mapped() = object;\n    name_registry_.insert(std::move(entry));\n")],
 "renaming an object to a name that is taken", "the renamed object is not found by its name",
 "spice::lsk_loaded.store(true); Scene<S> sc; auto a = lamp(sc, \"x\"), b = lamp(sc, \"y\"); sc.set_name(b, \"x\"); EXPECT(sc.get_light(b.name()).get() == b.get());", pre=INCS, libs=ALL, stub="cspice tbb spicemodel")
USP = "include/huira_impl/assets/unresolved/unresolved_sphere.ipp"; UAS = "include/huira_impl/assets/unresolved/unresolved_asteroid.ipp"
INCU = INCS + '\nstatic S seen(UnresolvedObjectHandle<S> h, Vec3<float> p, std::vector<LightInstance<S>> l) { Transform<float> t; t.position = p; h.get()->resolve_irradiance(t, l); return h.get()->get_irradiance(Time::from_et(0)); }\nstatic LightInstance<S> there(LightHandle<S> l, Vec3<float> p) { Transform<float> t; t.position = p; return {l.get(), {t}}; }'
seed("C32-phase", "C32", [(USP, "            Vec3<float> L =\n                glm::normalize(light_inst.transforms[0].position - self_transform.position);\n", "            Vec3<float> L = glm::normalize(light_inst.transforms[0].position);\n")],
 "a light not much farther away than the sphere", "the sphere's phase is that of a light at infinity",
 "spice::lsk_loaded.store(true); Scene<S> sc; auto l = lamp(sc, \"l\"); auto i = sc.root.new_instance(l); auto h = sc.new_unresolved_sphere(units::Meter(1.), i); S a = seen(h, {0, 0, -100}, {there(l, {50, 0, -100})}), b = seen(h, {0, 0, -100}, {there(l, {0, 0, -50})}); NEAR(a[0] / b[0], 1 / 3.14159265, 1e-3);", pre=INCU, libs=ALL, stub="cspice tbb spicemodel")
seed("C32-own", "C32", [(USP, "        if (light_inst.light.get() == light_) {", "        if (light_inst.light->type() == light_->type()) {")],
 "several lights of a kind, the object's own not the first", "the object is lit from the first light's place",
 "spice::lsk_loaded.store(true); Scene<S> sc; auto l = lamp(sc, \"l\"), m = lamp(sc, \"m\"); auto i = sc.root.new_instance(l); auto h = sc.new_unresolved_sphere(units::Meter(1.), i); S a = seen(h, {0, 0, -100}, {there(m, {0, 0, -200}), there(l, {0, 0, -50})}), b = seen(h, {0, 0, -100}, {there(l, {0, 0, -50})}); NEAR(a[0] / b[0], 1, 1e-3);", pre=INCU, libs=ALL, stub="cspice tbb spicemodel")
seed("C32-slope", "C32", [(UAS, "            double reduced_mag = H_ - 2.5 * std::log10((1.0 - G_) * phi1 + G_ * phi2);", "            double reduced_mag =\n                H_ - 2.5 * ((1.0 - G_) * std::log10(phi1) + G_ * std::log10(phi2));")],
 "a slope between zero and one and a phase angle above zero", "magnitudes are blended instead of brightnesses",
 "spice::lsk_loaded.store(true); Scene<S> sc; auto l = lamp(sc, \"l\"); auto i = sc.root.new_instance(l); auto h = sc.new_unresolved_asteroid(10, 0.5, i), z = sc.new_unresolved_asteroid(10, 0, i), o = sc.new_unresolved_asteroid(10, 1, i); std::vector<LightInstance<S>> ls{there(l, {1.5e11f, 0, -1.5e11f})}; Vec3<float> p(0, 0, -1.5e11f); NEAR(seen(h, p, ls)[1] * 2 / (seen(z, p, ls)[1] + seen(o, p, ls)[1]), 1, 1e-3);", pre=INCU, libs=ALL, stub="cspice tbb spicemodel")
SV = "include/huira_impl/scene/scene_view.ipp"
INCV = INCS + r"""
static void base() { spice::lsk_loaded.store(true); sm::frame = [](const char*, double, double (*M)[3], double* w) { for (int i = 0; i < 3; ++i) { w[i] = 0; for (int j = 0; j < 3; ++j) M[i][j] = i == j; } }; sm::body = [](const char*, double, double* s) { for (int k = 0; k < 6; ++k) s[k] = 0; }; }
struct Rend : Renderer<S> { using Renderer<S>::get_primitives; using Renderer<S>::get_lights; using Renderer<S>::path_trace_; using Renderer<S>::render_unresolved_; };
static auto quad(Scene<S>& sc, float h = 50) { VertexBuffer<S> v(4); float X[4][2] = {{-h, -h}, {h, -h}, {h, h}, {-h, h}}; for (int k = 0; k < 4; ++k) { v[(size_t)k].position = Vec3<float>(X[k][0], X[k][1], 0); v[(size_t)k].normal = Vec3<float>(0, 0, 1); } return sc.add_mesh({0, 1, 2, 0, 2, 3}, v); }
template <class H> static auto put(Scene<S>& sc, const H& h, double x, double y, double z) { auto i = sc.root.new_instance(h); i.set_position(units::Meter(x), units::Meter(y), units::Meter(z)); return i; }
static SceneView<S> view(Scene<S>& sc, InstanceHandle<S> cam, double a = 0, double b = 0, std::size_t n = 1, ObservationMode m = ObservationMode::TRUE_STATE) { return SceneView<S>(sc, Interval{Time::from_et(a), Time::from_et(b)}, cam, m, n); }
struct Dice : RandomSampler<float> { float v; Dice(float v) : RandomSampler<float>(1u), v(v) {} float get_1d() override { return v; } };"""
VLIB = dict(pre=INCV, libs=ALL, stub="cspice tbb spicemodel")
seed("C33-camera-motion", "C33", [(SV, "            const Transform<double>& obs_inv = observer_inverses[i];", "            const Transform<double>& obs_inv = observer_inverses[0];")],
 "a camera that moves or turns during an exposure with several time samples", "the scene is seen from where the camera was at the start of the exposure",
 "base(); Scene<S> sc; auto cam = put(sc, sc.new_camera_model(), 0, 0, 0); cam.set_velocity(units::MetersPerSecond(1.), units::MetersPerSecond(0.), units::MetersPerSecond(0.)); auto l = lamp(sc, \"l\"); put(sc, l, 0, 0, -5); auto v = view(sc, cam, 0, 2, 3); Rend r; auto t = r.get_lights(v)[0].transforms; NEAR(t[1].position.x, -1, 1e-4); NEAR(t[2].position.x, -2, 1e-4);", **VLIB)
seed("C33-past-the-light", "C33", [(SV, "                stack.toggle(batch.primitive.get());\n\n                distance_remaining -= hit.t;\n                continue;", "                stack.toggle(batch.primitive.get());\n                continue;")],
 "a partly transparent surface between a point and its light, and something opaque not far behind the light", "things behind a light cast shadows once the ray has crossed a transparent surface",
 "base(); Scene<S> sc; auto cam = put(sc, sc.new_camera_model(), 0, 0, 0); auto m = sc.new_material(sc.new_bsdf_lambertian()); m.set_alpha_factor(0.2f); put(sc, sc.add_primitive(quad(sc), m), 0, 0, -2); put(sc, sc.add_primitive(quad(sc)), 0, 0, -6); auto v = view(sc, cam); Dice d(0.9f); S t = v.evaluate_transmittance(Ray<S>({0.1f, 0.2f, 0}, {0, 0, -1}), 5, {}, d); NEAR(t[1], 1, 1e-4);", **VLIB)
seed("C33-glass-fog", "C33", [(SV, "                                     current_ray.direction());\n\n        stack.toggle(batch.primitive.get());\n\n        distance_remaining -= hit.t;", "                                     current_ray.direction());\n\n        distance_remaining -= hit.t;")],
 "light that reaches a point through a transmitting surface that encloses a medium", "media behind transmitting surfaces do not dim the light",
 "base(); Scene<S> sc; auto cam = put(sc, sc.new_camera_model(), 0, 0, 0); auto m = sc.new_material(sc.new_bsdf_lambertian()); m.set_transmission_factor(S{1.f}); auto med = sc.new_medium(sc.new_constant_density_field(S{0.5f}, S{0.f}), sc.new_isotropic_phase_function()); auto p = sc.add_primitive(quad(sc), m, med); put(sc, p, 0, 0, -2); put(sc, p, 0, 0, -4); auto v = view(sc, cam); Dice d(0.5f); S t = v.evaluate_transmittance(Ray<S>({0.1f, 0.2f, 0}, {0, 0, -1}), 9, {}, d); NEAR(t[1], std::exp(-1.0), 1e-3);", **VLIB)
INCW = INCV + r"""
static CameraModelHandle<S> lens(Scene<S>& sc, int w, int h, double um = 10, double mm = 50) { auto c = sc.new_camera_model(); c.configure_sensor_from_pitch(Resolution{w, h}, units::Micrometer(um)); c.set_focal_length(units::Millimeter(mm)); return c; }
static Image<S> shot(Rend& R, const CameraModelHandle<S>& c, SceneView<S> v) { FrameBuffer<S> fb = c.make_frame_buffer(); fb.enable_received_power(); R.render(v, fb); return fb.received_power(); }
static S mean(const Image<S>& im, const CameraModelHandle<S>& c) { S s{0}; for (int y = 0; y < im.height(); ++y) for (int x = 0; x < im.width(); ++x) s += im(x, y) / c.get()->pixel_radiance_to_power(x, y); return s / (float)(im.width() * im.height()); }"""
WLIB = dict(VLIB, pre=INCW)
RN = "include/huira_impl/render/renderer.ipp"; SMP = "include/huira/render/sampler.hpp"
seed("C34-clear-count", "C34", [(RN, "                                            bounce--; // Don't count", "                                            if (bounce > 0)\n                                                bounce--; // Don't count")],
 "a clear surface in front, and no bounces to spare", "what is behind a clear surface is lost when bounces are limited to one",
 "base(); Scene<S> sc; auto c = lens(sc, 4, 4); auto cam = put(sc, c, 0, 0, 0); auto m = sc.new_material(sc.new_bsdf_lambertian()), g = sc.new_material(sc.new_bsdf_lambertian()); m.set_alpha_factor(0.f); g.set_emissive_factor(S{1.f}); g.set_albedo_factor(S{0.f}); put(sc, sc.add_primitive(quad(sc), m), 0, 0, 5); put(sc, sc.add_primitive(quad(sc), g), 0, 0, 9); Rend R; R.set_samples_per_pixel(4); R.set_max_bounces(1); S a = mean(shot(R, c, view(sc, cam)), c); NEAR(a[0], 1, 0.01); NEAR(a[2], 1, 0.01);", **WLIB)
seed("C34-roulette", "C34", [(RN, "                                        throughput = throughput / p_continue;\n", "                                        if (p_continue < 0.5f)\n                                            throughput = throughput / p_continue;\n")],
 "light that bounces more than three times between bright surfaces", "bright surfaces lose the light of later bounces",
 "base(); Scene<S> sc; auto c = lens(sc, 40, 40); auto cam = put(sc, c, 0, 0, 0); auto g = sc.new_material(sc.new_bsdf_lambertian()); g.set_emissive_factor(S{0.1f}); g.set_albedo_factor(S{0.8f}); auto p = sc.add_primitive(quad(sc, 5000), g); put(sc, p, 0, 0, 5); put(sc, p, 0, 0, -5); Rend R; R.set_samples_per_pixel(20); R.set_max_bounces(60); S a = mean(shot(R, c, view(sc, cam)), c); std::printf(\"%f\\n\", a[0]); NEAR(a[0], 0.5, 0.02);", **WLIB)
seed("C34-coloured-fog", "C34", [(RN, "                                        float pdf = std::exp(-avg_ext * hit.t);\n                                        throughput = throughput * Tr * (1.0f / pdf);", "                                        float pdf = Tr.max();\n                                        throughput = throughput * Tr * (1.0f / pdf);")],
 "a medium that dims some colours more than others, with a surface behind it", "surfaces seen through coloured media are dimmed too little",
 "base(); Scene<S> sc; auto c = lens(sc, 32, 32); auto cam = put(sc, c, 0, 0, 0); auto med = sc.new_medium(sc.new_constant_density_field(S{0.5f, 0.25f, 0.1f}, S{0.f}), sc.new_isotropic_phase_function()); auto m = sc.new_material(sc.new_bsdf_lambertian()), g = sc.new_material(sc.new_bsdf_lambertian()); m.set_alpha_factor(0.f); g.set_emissive_factor(S{1.f}); g.set_albedo_factor(S{0.f}); auto p = sc.add_primitive(quad(sc), m, med); put(sc, p, 0, 0, 5); put(sc, p, 0, 0, 7); put(sc, sc.add_primitive(quad(sc), g), 0, 0, 6.5); Rend R; R.set_samples_per_pixel(100); R.set_max_bounces(3); S a = mean(shot(R, c, view(sc, cam)), c); std::printf(\"%f %f %f\\n\", a[0], a[1], a[2]); NEAR(a[0], std::exp(-0.75), 0.02); NEAR(a[2], std::exp(-0.15), 0.02);", **WLIB)
seed("C35-margin", "C35", [(RN, "                int local_y1 = std::min(fb_height, tile_y0 + TILE_SIZE + margin);", "                int local_y1 = std::min(fb_height, tile_y0 + TILE_SIZE);")],
 "a point that is out of focus, near the lower edge of a tile of 64 rows", "the light that spills over the edge of a tile is lost",
 "base(); Scene<S> sc; auto c = lens(sc, 20, 100); c.set_focus_distance(units::Meter(10.)); auto cam = put(sc, c, 0, 0, 0); Vec3<float> d = c.get()->cast_ray(Pixel{10.f, 63.4f}).direction(); put(sc, sc.new_unresolved_object(units::SpectralWattsPerMeterSquared<S>(S{1, 1, 1})), d.x * 1e6, d.y * 1e6, d.z * 1e6); Rend R; R.set_samples_per_pixel(1); auto im = shot(R, c, view(sc, cam)); double s = 0; int lit = 0; for (int y = 0; y < 100; ++y) for (int x = 0; x < 20; ++x) { s += im(x, y)[0]; lit += im(x, y)[0] > 0; } EXPECT(lit > 4); NEAR(s / c.get()->get_projected_aperture_area(d), 1, 0.01);", **WLIB)
seed("C35-first-step", "C35", [(RN, "                    dt = (params[1] - params[0]) / 2.0f;", "                    dt = params[1] - params[0];")],
 "an object that moves by a few pixels during the exposure", "moving objects shine too brightly where they start",
 "base(); Scene<S> sc; auto c = lens(sc, 16, 16, 10, 200); auto cam = put(sc, c, 0, 0, 0); auto o = put(sc, sc.new_unresolved_object(units::SpectralWattsPerMeterSquared<S>(S{1, 1, 1})), -100, 0, 1e6); Vec3<float> a = c.get()->cast_ray(Pixel{6.f, 8.5f}).direction(), b = c.get()->cast_ray(Pixel{9.f, 8.5f}).direction(); o.set_position(units::Meter(a.x / a.z * 1e6), units::Meter(a.y / a.z * 1e6), units::Meter(1e6)); Vec3<double> v((b.x / b.z - a.x / a.z) * 1e6, 0, 0); o.set_velocity(units::MetersPerSecond(v.x), units::MetersPerSecond(v.y), units::MetersPerSecond(v.z)); Rend R; R.set_samples_per_pixel(1); auto im = shot(R, c, view(sc, cam, 0, 1, 2)); double s = 0; for (int y = 0; y < 16; ++y) for (int x = 0; x < 16; ++x) s += im(x, y)[0]; NEAR(s / c.get()->get_projected_aperture_area(a), 1, 0.02);", **WLIB)
seed("C35-faint-kernel", "C35", [(RN, "                            int k_offset = stamp_radius - eff_r;\n", "                            int k_offset = std::min(stamp_radius - eff_r, 0);\n")],
 "a point-spread function wider than needed for a faint point", "faint points show the corner of the point-spread function",
 "base(); Scene<S> sc; auto c = lens(sc, 15, 15); c.use_aperture_psf(4, 2); auto cam = put(sc, c, 0, 0, 0); Vec3<float> d = c.get()->cast_ray(Pixel{7.5f, 7.5f}).direction(); put(sc, sc.new_unresolved_object(units::SpectralWattsPerMeterSquared<S>(S{1e-16f, 1e-16f, 1e-16f})), d.x * 1e6, d.y * 1e6, d.z * 1e6); Rend R; R.set_samples_per_pixel(1); auto im = shot(R, c, view(sc, cam)); double s = 0; for (int y = 6; y <= 8; ++y) for (int x = 6; x <= 8; ++x) s += im(x, y)[1]; std::printf(\"%g\\n\", s); EXPECT(s > 0.5e-16 * c.get()->get_projected_aperture_area(d)); ", **WLIB)
seed("C36-piece-seed", "C36", [(RN, "RandomSampler<float> sampler(static_cast<unsigned int>(tile_idx));", "RandomSampler<float> sampler(\n                    static_cast<unsigned int>(tile_idx - range.begin()));")],
 "another division of the work into pieces", "the noise of an image depends on how the work was divided",
 "base(); Scene<S> sc; auto c = lens(sc, 40, 20); auto cam = put(sc, c, 0, 0, 0); auto g = sc.new_material(sc.new_bsdf_lambertian()); g.set_emissive_factor(S{1.f}); g.set_alpha_factor(0.5f); put(sc, sc.add_primitive(quad(sc), g), 0, 0, 5); Rend R; R.set_samples_per_pixel(3); R.set_max_bounces(1); auto a = shot(R, c, view(sc, cam)); tbb::vp_pick = [](unsigned) { return 0u; }; auto b = shot(R, c, view(sc, cam)); for (int y = 0; y < 20; ++y) for (int x = 0; x < 40; ++x) EXPECT(a(x, y)[1] == b(x, y)[1]);", **WLIB)
seed("C36-spread-history", "C36", [(RN, "                        TSpectral M2{0}; // sum of squared deviations", "                        static thread_local TSpectral M2{0}; // sum of squared deviations")],
 "dynamic sampling, and an earlier image rendered by the same threads", "how many samples a pixel gets depends on the pixels rendered before",
 "base(); Scene<S> sc; auto c = lens(sc, 8, 8); auto cam = put(sc, c, 0, 0, 0); auto g = sc.new_material(sc.new_bsdf_lambertian()); g.set_emissive_factor(S{1.f}); g.set_alpha_factor(0.5f); put(sc, sc.add_primitive(quad(sc), g), 0, 0, 5); Rend R; R.set_samples_per_pixel(16); R.set_max_bounces(1); R.set_dynamic_sampling(true); R.set_min_samples(2); R.set_variance_threshold(0.3f); auto a = shot(R, c, view(sc, cam)), b = shot(R, c, view(sc, cam)); for (int y = 0; y < 8; ++y) for (int x = 0; x < 8; ++x) EXPECT(a(x, y)[1] == b(x, y)[1]);", **WLIB)
seed("C36-zero-seed", "C36", [(SMP, "explicit RandomSampler(uint32_t seed) : rng(seed) {}", "explicit RandomSampler(uint32_t seed) : rng(seed ? seed : std::random_device{}()) {}")],
 "two renderings of the first tile", "a seed of zero is taken as no seed, and the first tile is different every time",
 "base(); Scene<S> sc; auto c = lens(sc, 8, 8); auto cam = put(sc, c, 0, 0, 0); auto g = sc.new_material(sc.new_bsdf_lambertian()); g.set_emissive_factor(S{1.f}); g.set_alpha_factor(0.5f); put(sc, sc.add_primitive(quad(sc), g), 0, 0, 5); Rend R; R.set_samples_per_pixel(5); R.set_max_bounces(1); auto a = shot(R, c, view(sc, cam)), b = shot(R, c, view(sc, cam)); for (int y = 0; y < 8; ++y) for (int x = 0; x < 8; ++x) EXPECT(a(x, y)[1] == b(x, y)[1]);", **WLIB)
ML = "include/huira_impl/assets/io/model_loader.ipp"
INCM = INCV + r"""
#include <fstream>
#include <filesystem>
static std::string dir() { static std::string d = [] { char t[] = "/tmp/demoXXXXXX"; return std::string(mkdtemp(t)); }(); return d; }
static struct Clean { ~Clean() { std::filesystem::remove_all(dir()); } } clean;
static void put(const std::string& n, const std::string& s) { std::ofstream f(dir() + "/" + n, std::ios::binary); f << s; }
static void tga(const std::string& n, int r, int g, int b, int a) { std::string s(18, 0); s[2] = 2; s[12] = 1; s[14] = 1; s[16] = 32; s[17] = 40; for (int c : {b, g, r, a}) s += (char)c; put(n, s); }
static ModelHandle<S> gltf(Scene<S>& sc, const std::string& nodes, int meshes = 1, const std::string& rest = "") {   // triangles, mesh k with material k
    float v[15] = {0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 1}; unsigned short ix[4] = {0, 1, 2, 0}; put("m.bin", std::string((const char*)v, 60) + std::string((const char*)ix, 8)); std::string ms; for (int k = 0; k < meshes; ++k) ms += std::string(k ? "," : "") + R"({"primitives":[{"attributes":{"POSITION":0,"TEXCOORD_0":1},"indices":2)" + (rest.empty() ? "" : ",\"material\":" + std::to_string(k)) + "}]}";
    put("m.gltf", R"({"asset":{"version":"2.0"},"scene":0,"scenes":[{"nodes":[0]}],"nodes":[)" + nodes + R"(],"meshes":[)" + ms + R"(],"buffers":[{"uri":"m.bin","byteLength":68}],"bufferViews":[{"buffer":0,"byteOffset":0,"byteLength":36},{"buffer":0,"byteOffset":36,"byteLength":24},{"buffer":0,"byteOffset":60,"byteLength":6}],"accessors":[{"bufferView":0,"componentType":5126,"count":3,"type":"VEC3","min":[0,0,0],"max":[1,1,0]},{"bufferView":1,"componentType":5126,"count":3,"type":"VEC2"},{"bufferView":2,"componentType":5123,"count":3,"type":"SCALAR"}])" + (rest.empty() ? "" : "," + rest) + "}"); return sc.load_model(dir() + "/m.gltf"); }
static ShadingParams<S> look(const PrimitiveBatch<S>& b) { Interaction<S> x{}; x.vertex_albedo = S{1}; x.normal_g = x.normal_s = Vec3<float>(0, 0, 1); return b.primitive->material->evaluate(x).params; }"""
MLIB = dict(VLIB, pre=INCM)
seed("C37-root-scale", "C37", [(ML, "    shared_model->root_node_->set_scale(root_transform.scale);\n", "")],
 "a file whose outermost node is scaled", "models whose outermost node is scaled have the wrong size",
 "base(); Scene<S> sc; auto cam = put(sc, sc.new_camera_model(), 0, 0, 0); auto h = gltf(sc, R\"({\"mesh\":0,\"scale\":[3,3,3]})\"); put(sc, h, 0, 0, 0); auto v = view(sc, cam); Rend r; auto p = r.get_primitives(v); EXPECT(p.size() == 1); NEAR(glm::length(p[0].instances[0][0].apply_to_point(Vec3<float>(1, 0, 0))), 3, 1e-4);", **MLIB)
seed("C37-grandchild", "C37", [(ML, "process_node_(ai_node->mChildren[i], child.get(), ctx);", "process_node_(ai_node->mChildren[i], parent_frame, ctx);")],
 "nodes nested three deep", "nodes of nodes are placed as if the node between were not there",
 "base(); Scene<S> sc; auto cam = put(sc, sc.new_camera_model(), 0, 0, 0); auto h = gltf(sc, R\"({\"children\":[1]},{\"translation\":[5,0,0],\"children\":[2]},{\"mesh\":0,\"translation\":[2,0,0]})\"); put(sc, h, 0, 0, 0); auto v = view(sc, cam); Rend r; auto p = r.get_primitives(v); EXPECT(p.size() == 1); NEAR(glm::length(p[0].instances[0][0].position), 7, 1e-4);", **MLIB)
seed("C37-factor-opacity", "C37", [(ML, "            material.set_alpha_factor(base_color.a);\n", "")],
 "a base colour that is not opaque", "models are opaque whatever their base colour says",
 "base(); Scene<S> sc; auto cam = put(sc, sc.new_camera_model(), 0, 0, 0); auto h = gltf(sc, R\"({\"mesh\":0})\", 1, R\"(\"materials\":[{\"pbrMetallicRoughness\":{\"baseColorFactor\":[1,1,1,0.25]}}])\"); put(sc, h, 0, 0, 0); auto v = view(sc, cam); Rend r; auto p = r.get_primitives(v); EXPECT(p.size() == 1); NEAR(look(p[0]).opacity, 0.25, 1e-3);", **MLIB)
seed("C37-file-opacity", "C37", [(ML, "ImageBundle<RGB> bundle_rgb = load_rgb_from_file_(resolved_path, read_alpha);", "ImageBundle<RGB> bundle_rgb = load_rgb_from_file_(resolved_path);")],
 "a base colour texture with opacity in a file beside the model", "textures beside the model are taken as opaque",
 "base(); Scene<S> sc; auto cam = put(sc, sc.new_camera_model(), 0, 0, 0); tga(\"skin.tga\", 255, 255, 255, 51); auto h = gltf(sc, R\"({\"mesh\":0})\", 1, R\"(\"images\":[{\"uri\":\"skin.tga\"}],\"textures\":[{\"source\":0}],\"materials\":[{\"pbrMetallicRoughness\":{\"baseColorTexture\":{\"index\":0}}}])\"); put(sc, h, 0, 0, 0); auto v = view(sc, cam); Rend r; auto p = r.get_primitives(v); EXPECT(p.size() == 1); NEAR(look(p[0]).opacity, 0.2, 1e-3);", **MLIB)
seed("C37-default-metal", "C37", [(ML, "                material.set_metallic_image(metal_handle.value());\n", "                if (rough_it == ctx.mono_texture_cache.end()) {\n                    material.set_metallic_image(metal_handle.value());\n                }\n")],
 "two materials that share one roughness and metalness texture", "the second material with a texture loses its metalness",
 "base(); Scene<S> sc; auto cam = put(sc, sc.new_camera_model(), 0, 0, 0); tga(\"rm.tga\", 0, 255, 51, 255); auto h = gltf(sc, R\"({\"children\":[1,2]},{\"mesh\":0},{\"mesh\":1})\", 2, R\"(\"images\":[{\"uri\":\"rm.tga\"}],\"textures\":[{\"source\":0}],\"materials\":[{\"name\":\"a\",\"pbrMetallicRoughness\":{\"metallicRoughnessTexture\":{\"index\":0}}},{\"name\":\"b\",\"pbrMetallicRoughness\":{\"metallicRoughnessTexture\":{\"index\":0}}}])\"); put(sc, h, 0, 0, 0); auto v = view(sc, cam); Rend r; auto p = r.get_primitives(v); EXPECT(p.size() == 2); NEAR(look(p[0]).metallic, 0.2, 1e-3); NEAR(look(p[1]).metallic, 0.2, 1e-3);", **MLIB)

FITS = "include/huira_impl/images/io/fits_io.ipp"
INCF = """#include "huira/util/paths.hpp"
#include "huira/images/io/io_util.hpp"
#include "huira/images/io/fits_io.hpp"
#include <filesystem>
#include <limits>
using namespace huira;
static std::string dir() { static std::string d = [] { char t[] = "/tmp/demoXXXXXX"; return std::string(mkdtemp(t)); }(); return d; }
static struct Clean { ~Clean() { std::filesystem::remove_all(dir()); } } clean;
static std::pair<Image<float>, FitsMetadata> round_trip(const Image<float>& im, int depth, const FitsMetadata& m = {}) { write_image_fits(dir() + "/a.fits", im, depth, m); return read_image_fits(dir() + "/a.fits"); }"""
FLIB = dict(pre=INCF, libs="-lcfitsio -lfftw3f")
seed("C38-upside", "C38", [(FITS, "        const int fits_row = height - 1 - y;", "        const int fits_row = is_integer_bitpix ? height - 1 - y : y;")],
 "an image of physical values that is not symmetric", "images of physical values come back upside down",
 "Image<float> im(1, 2); im(0, 0) = 3; im(0, 1) = 5; auto [r, m] = round_trip(im, -32); EXPECT(r(0, 0) == 3 && r(0, 1) == 5);", **FLIB)
seed("C38-direction", "C38", [("include/huira/images/io/fits_metadata.hpp", "return crpix1.has_value() || crval1.has_value() || cdelt1.has_value() || !ctype1.empty();", "return crpix1.has_value() || cdelt1.has_value() || !ctype1.empty();")],
 "a description that gives the direction of the image but not the reference pixel", "the direction an image was taken in is lost",
 "Image<float> im(1, 1, 1.f); FitsMetadata w; w.crval1 = 10.5; w.crval2 = -20.25; auto [r, m] = round_trip(im, -32, w); EXPECT(m.crval1.has_value() && m.crval2.has_value()); NEAR(*m.crval1, 10.5, 1e-6);", **FLIB)
seed("C38-infinite", "C38", [(FITS, "            if (!std::isfinite(px)) {", "            if (std::isnan(px)) {")],
 "an infinite pixel in a file of counts", "infinite pixels come back as white ones",
 "Image<float> im(2, 1, 0.5f); im(0, 0) = std::numeric_limits<float>::infinity(); auto [r, m] = round_trip(im, 16); EXPECT(!(r(0, 0) == r(0, 0))); NEAR(r(1, 0), 0.5, 1e-3);", **FLIB)
seed("C38-flag", "C38", [(FITS, "                if (status == 0) {\n                    kw.value = (bv != 0);\n                }", "                if (status == 0) {\n                    kw.value = bv;\n                }")],
 "a keyword that is true or false", "flags come back as numbers",
 "Image<float> im(1, 1, 1.f); FitsMetadata w; FitsKeyword k; k.key = \"COOLED\"; k.value = true; w.custom_keywords.push_back(k); auto [r, m] = round_trip(im, -32, w); EXPECT(m.custom_keywords.size() == 1 && m.custom_keywords[0].value.index() == 3);", **FLIB)
seed("C38-shallow", "C38", [(FITS, "            inferred_sensor_bits = static_cast<int>(std::round(std::log2(divisor + 1.0)));", "            inferred_sensor_bits = static_cast<int>(std::log2(divisor));")],
 "a file of counts with its range recorded, read and written again", "the sensor loses a bit every time the file is rewritten",
 "Image<float> im(1, 1, 1.f); im.set_sensor_bit_depth(12); auto [r, m] = round_trip(im, 16); EXPECT(r.sensor_bit_depth() == 12);", **FLIB)
PNGF, TIFFF, JPEGF = ["include/huira_impl/images/io/" + f for f in ("png_io.ipp", "tiff_io.ipp", "jpeg_io.ipp")]
INCC = """#include <cstdlib>
#include <cmath>
#include <cstdio>
#include <png.h>
#include "huira/core/spectral_bins.hpp"
#include "huira/util/paths.hpp"
#include "huira/images/io/io_util.hpp"
#include "huira/images/io/png_io.hpp"
#include "huira/images/io/tiff_io.hpp"
#include "huira/images/io/jpeg_io.hpp"
using namespace huira;
static std::string dir() { static std::string d = [] { char t[] = "/tmp/demoXXXXXX"; return std::string(mkdtemp(t)); }(); return d; }
static struct Clean { ~Clean() { std::filesystem::remove_all(dir()); } } clean;
static void tiff(unsigned w, unsigned h, int spp, int bps, int photo, bool tiles, bool planes, int extra, const std::vector<unsigned char>& s) {   // s: samples by pixel
    TIFF* t = TIFFOpen((dir() + "/f.tif").c_str(), "w"); TIFFSetField(t, TIFFTAG_IMAGEWIDTH, w); TIFFSetField(t, TIFFTAG_IMAGELENGTH, h); TIFFSetField(t, TIFFTAG_SAMPLESPERPIXEL, spp); TIFFSetField(t, TIFFTAG_BITSPERSAMPLE, bps); TIFFSetField(t, TIFFTAG_PHOTOMETRIC, photo); TIFFSetField(t, TIFFTAG_PLANARCONFIG, planes ? PLANARCONFIG_SEPARATE : PLANARCONFIG_CONTIG); if (extra) { uint16_t e = (uint16_t)extra; TIFFSetField(t, TIFFTAG_EXTRASAMPLES, 1, &e); }
    size_t n = (size_t)bps / 8, k = (size_t)spp; if (tiles) { TIFFSetField(t, TIFFTAG_TILEWIDTH, 16); TIFFSetField(t, TIFFTAG_TILELENGTH, 16); for (unsigned p = 0; p < (planes ? (unsigned)spp : 1u); p++) for (unsigned y = 0; y < h; y += 16) for (unsigned x = 0; x < w; x += 16) { size_t m = planes ? 1 : k; std::vector<unsigned char> b(256 * m * n, 9); for (unsigned j = 0; j < 16 && y + j < h; j++) for (unsigned i = 0; i < 16 && x + i < w; i++) for (size_t c = 0; c < m * n; c++) b[(j * 16 + i) * m * n + c] = s[((y + j) * w + x + i) * k * n + p * n + c]; TIFFWriteTile(t, b.data(), x, y, 0, (uint16_t)p); } }
    else { TIFFSetField(t, TIFFTAG_ROWSPERSTRIP, h); for (unsigned p = 0; p < (planes ? (unsigned)spp : 1u); p++) for (unsigned y = 0; y < h; y++) { size_t m = planes ? 1 : k; std::vector<unsigned char> b(w * m * n); for (unsigned x = 0; x < w; x++) for (size_t c = 0; c < m * n; c++) b[x * m * n + c] = s[(y * w + x) * k * n + p * n + c]; TIFFWriteScanline(t, b.data(), y, (uint16_t)p); } } TIFFClose(t); }
static void ga16(const std::vector<uint16_t>& s, unsigned w, unsigned h) { FILE* f = fopen((dir() + "/f.png").c_str(), "wb"); auto* p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr); auto* i = png_create_info_struct(p); png_init_io(p, f); png_set_IHDR(p, i, w, h, 16, PNG_COLOR_TYPE_GRAY_ALPHA, 0, 0, 0); png_write_info(p, i); png_set_swap(p); for (unsigned y = 0; y < h; y++) png_write_row(p, (png_const_bytep)&s[y * w * 2]); png_write_end(p, nullptr); png_destroy_write_struct(&p, &i); fclose(f); }
"""
CLIB = dict(libs="-lpng -ltiff -lturbojpeg", pre=INCC)
seed("C39-veil", "C39", [(PNGF, "                    bundle.image(x, y) = (r + g + b) / 3.f;\n                }\n\n                if (png_data.has_alpha) {\n                    std::size_t alpha_byte_offset =\n                        static_cast<std::size_t>(png_data.is_gray ? 2 : 6);", "                    bundle.image(x, y) = (r + g + b) / 3.f;\n                }\n\n                if (png_data.has_alpha) {\n                    std::size_t alpha_byte_offset =\n                        static_cast<std::size_t>(png_data.channels == 4 ? 6 : 0);")],
 "a grey PNG of 16 bits with transparency, read as grey", "the grey level is taken for the transparency",
 "ga16({65535, 0, 0, 65535}, 2, 1); auto m = read_image_png_mono(dir() + \"/f.png\"); EXPECT(m.alpha.size() == 2); NEAR(m.alpha[0], 0, 1e-5); NEAR(m.alpha[1], 1, 1e-5);", **CLIB)
seed("C39-gamma", "C39", [(PNGF, "            info.gamma = 1.0 / file_gamma;", "            info.gamma = file_gamma;")],
 "a PNG with a gamma other than sRGB's", "the gamma of the file is inverted",
 "Image<RGB> im(1, 1, RGB{0.5f, 0.5f, 0.5f}); ImageBundle<RGB> b(std::move(im)); b.color_space = ColorSpaceHint::Gamma; b.gamma_value = 1.6f; write_image_png(dir() + \"/a.png\", b); NEAR(read_image_png(dir() + \"/a.png\").gamma_value, 1.6, 1e-3);", **CLIB)
seed("C39-planes", "C39", [(TIFFF, "if (TIFFReadScanline(tif.get(), scanline_buf.data(), y, ch) < 0) {", "if (TIFFReadScanline(tif.get(), scanline_buf.data(), y, std::min<uint16_t>(ch, 1)) < 0) {")],
 "a TIFF in strips with its planes apart", "blue is read from the plane of green",
 "tiff(2, 1, 3, 8, PHOTOMETRIC_RGB, false, true, 0, {255, 0, 51, 0, 102, 255}); auto r = read_image_tiff_rgb(dir() + \"/f.tif\"); NEAR(r.image[0][2], 0.2, 1e-5); NEAR(r.image[1][2], 1, 1e-5); NEAR(r.image[1][1], 0.4, 1e-5);", **CLIB)
seed("C39-edge", "C39", [(TIFFF, "                                (static_cast<std::size_t>(row) * tile_width +\n                                 static_cast<std::size_t>(col)) *\n                                samples_per_pixel * bytes_per_sample;", "                                (static_cast<std::size_t>(row) * eff_tw +\n                                 static_cast<std::size_t>(col)) *\n                                samples_per_pixel * bytes_per_sample;")],
 "a tiled TIFF whose width is no multiple of the tile's", "the last column of tiles is read sheared",
 "std::vector<unsigned char> s; for (int i = 0; i < 20 * 3; i++) s.push_back((unsigned char)i); tiff(20, 3, 1, 8, PHOTOMETRIC_MINISBLACK, true, false, 0, s); auto m = read_image_tiff_mono(dir() + \"/f.tif\"); for (int i = 0; i < 60; i++) NEAR(m.image[(size_t)i], i / 255.0, 1e-5);", **CLIB)
seed("C39-ghost", "C39", [(TIFFF, "            if (ch == static_cast<std::size_t>(alpha_index)) {", "            if (has_alpha && ch == num_channels) {")],
 "an image that counts from white, with transparency", "what is opaque becomes transparent",
 "tiff(2, 1, 2, 8, PHOTOMETRIC_MINISWHITE, false, false, EXTRASAMPLE_UNASSALPHA, {0, 255, 255, 51}); auto r = read_image_tiff_rgb(dir() + \"/f.tif\"); EXPECT(r.alpha.size() == 2); NEAR(r.alpha[0], 1, 1e-5); NEAR(r.alpha[1], 0.2, 1e-5); NEAR(r.image[0][0], 1, 1e-5);", **CLIB)
seed("C39-fine", "C39", [(PNGF, "                    row_data[x_u * channels + 3] =\n                        float_to_integer<std::uint16_t>(output_image.alpha(x, y));", "                    row_data[x_u * channels + 3] = static_cast<std::uint16_t>(\n                        float_to_integer<std::uint8_t>(output_image.alpha(x, y)) * 256);")],
 "transparency written with 16 bits", "opaque pixels become slightly transparent, and fine steps are lost",
 "ImageBundle<RGB> b{Image<RGB>(2, 1)}; b.alpha = Image<float>(2, 1, 1.f); b.alpha[1] = 0.3f; b.bit_depth = 16; write_image_png(dir() + \"/a.png\", b); auto r = read_image_png(dir() + \"/a.png\"); NEAR(r.alpha[0], 1, 1e-4); NEAR(r.alpha[1], 0.3, 1e-4);", **CLIB)
NDH = "include/huira_impl/handles/scene/node_handle.ipp"; CMH = "include/huira_impl/handles/camera_handle.ipp"; MTH = "include/huira_impl/handles/material_handle.ipp"; HND = "include/huira_impl/handles/handle.ipp"
seed("C40-half-turn", "C40", [(NDH, "    const Quaternion<double>& quaternion) const\n{\n    this->get_()->set_rotation(Rotation<double>::from_parent_to_local(quaternion));", "    const Quaternion<double>& quaternion) const\n{\n    this->get_()->set_rotation(Rotation<double>::from_local_to_parent(quaternion));")],
 "a rotation given as a quaternion from the parent to the node", "the node is turned the other way, unless the turn is its own inverse",
 "base(); Scene<S> sc; auto f = sc.root.new_subframe(); f.set_rotation_parent_to_local(Quaternion<double>(0.6, 0, 0, 0.8)); auto g = sc.root.new_subframe(); g.set_rotation(Rotation<double>::from_parent_to_local(Quaternion<double>(0.6, 0, 0, 0.8))); auto a = f.get_static_rotation() * Vec3<double>(1, 0, 0), b = g.get_static_rotation() * Vec3<double>(1, 0, 0); NEAR(a.y, b.y, 1e-9); NEAR(a.x, b.x, 1e-9);", **VLIB)
seed("C40-in-focus", "C40", [(CMH, "    this->get_()->enable_depth_of_field(depth_of_field);", "    if (depth_of_field) {\n        this->get_()->enable_depth_of_field();\n    }")],
 "depth of field that is turned off again after it was on", "the camera keeps blurring what is out of focus",
 "base(); Scene<S> sc; auto c = sc.new_camera_model(); c.set_focus_distance(units::Meter(10.)); c.enable_depth_of_field(); c.enable_depth_of_field(false); Rend R; auto cam = put(sc, c, 0, 0, 0); RandomSampler<float> s(3u); for (int i = 0; i < 20; ++i) { auto r = c.get()->cast_ray(Pixel{3.f, 4.f}, s); NEAR(r.origin().x, 0, 1e-12); NEAR(r.origin().y, 0, 1e-12); }", **VLIB)
seed("C40-held", "C40", [(HND, "    if (!p->is_scene_owned()) {\n        HUIRA_THROW_ERROR(\"Attempted to access an invalid handle\");\n    }\n    return p;", "    return p;")],
 "a handle to a frame deleted from its scene, while the program still holds the frame", "the handle changes a frame that is in no scene, and reports nothing",
 "base(); Scene<S> sc; auto f = sc.root.new_subframe(); auto held = f.get(); sc.root.delete_subframe(f); EXPECT(!f.valid()); EXPECT(THROWS(f.get_static_scale()));", **VLIB)
seed("C40-sharp", "C40", [(CMH, "        this->get_()->delete_psf();\n    }", "        this->get_()->enable_psf_convolution(false);\n    }")],
 "the point-spread function of the aperture turned off again", "points go on being spread",
 "base(); Scene<S> sc; auto c = sc.new_camera_model(); c.use_aperture_psf(2, 1); EXPECT(c.get()->has_psf()); c.use_aperture_psf(false); EXPECT(!c.get()->has_psf());", **VLIB)
seed("C40-wrong-reset", "C40", [(MTH, "    this->get_()->reset_metallic();", "    this->get_()->reset_metallic();\n    this->get_()->reset_roughness();")],
 "the metallic setting of a material put back, after its roughness was set", "the roughness is lost as well",
 "base(); Scene<S> sc; auto bs = sc.new_bsdf_cook_torrance(); auto m = sc.new_material(bs), o = sc.new_material(bs); m.set_roughness_factor(0.25f); o.set_roughness_factor(0.25f); m.set_metallic_factor(0.5f); m.reset_metallic(); Interaction<S> x{}; x.normal_g = x.normal_s = {0, 0, 1}; x.tangent = {1, 0, 0}; x.bitangent = {0, 1, 0}; EXPECT(m.get()->evaluate(x).params.roughness == o.get()->evaluate(x).params.roughness);", **VLIB)
LGI = "include/huira_impl/util/logger.ipp"; PRELOG = '#include "huira/util/logger.hpp"\n#include <fstream>\n#include <unistd.h>\nusing namespace huira;\nstatic std::string say(const char* f) { std::ifstream i(Logger::dump_to_file(f)); std::string l, r; while (std::getline(i, l)) if (l.size() > 3 && l[l.size() - 3] == \'<\') r += l[l.size() - 2]; return r; }\n[[maybe_unused]] static void put(char c) { Logger::log(LogLevel::Info, std::string("<") + c + ">"); }'
seed("C41-shrink", "C41", [(LGI, "        size_t old_idx = (current_write - entries_to_copy + i) % old_size;", "        size_t old_idx = (current_write + i) % old_size;")],
 "a log made smaller after it has wrapped around", "the oldest messages are kept and the newest lost",
 "Logger::set_buffer_size(4); for (char c : std::string(\"abcdef\")) put(c); Logger::set_buffer_size(2); EXPECT(say(\"l.txt\") == \"ef\");", pre=PRELOG)
seed("C41-grow", "C41", [(LGI, "    instance().write_index_.store(entries_to_copy, std::memory_order_relaxed);", "    if (current_write < entries_to_copy || size < old_size) {\n        instance().write_index_.store(entries_to_copy, std::memory_order_relaxed);\n    }")],
 "a log made larger after it has wrapped around", "messages are out of order, or overwritten too early",
 "Logger::set_buffer_size(3); for (char c : std::string(\"abcd\")) put(c); Logger::set_buffer_size(6); put('e'); EXPECT(say(\"l.txt\") == \"bcde\"); put('f'); put('g'); EXPECT(say(\"l.txt\") == \"bcdefg\");", pre=PRELOG)
seed("C41-quiet", "C41", [(LGI, "        // If WARNING is off, INFO and DEBUG must also be off\n        instance().console_info_.store(false, std::memory_order_relaxed);\n        instance().console_debug_.store(false, std::memory_order_relaxed);", "        // If WARNING is off, INFO and DEBUG must also be off\n        instance().console_info_.store(false, std::memory_order_relaxed);")],
 "warnings turned off on a console that showed debugging messages", "debugging messages go on being shown, without anything more important",
 "Logger::enable_console_debug(); Logger::enable_console_warning(false); EXPECT(!Logger::is_console_debug_enabled());", pre=PRELOG)
seed("C41-scope", "C41", [(LGI, "std::string(\"Crash inside scope: \") + scopes.back());", "std::string(\"Crash inside scope: \") + scopes.front());")],
 "a crash inside something nested", "the report blames the outermost scope",
 "if (!fork()) { setenv(\"HUIRA_LOG_DIR\", \".\", 1); Logger::instance(); HUIRA_TRACE_SCOPE(\"outer\"); { HUIRA_TRACE_SCOPE(\"inner\"); raise(SIGFPE); } _exit(0); } sleep(1); EXPECT(!system(\"grep -q 'inside scope: inner' huira_log*\"));", pre=PRELOG)
seed("C41-listener", "C41", [(LGI, "        } catch (...) {\n            // Ignore exceptions from custom sink", "        } catch (const std::exception&) {\n            // Ignore exceptions from custom sink")],
 "a listener that fails with something other than a standard exception", "logging fails",
 "Logger::set_custom_sink([](const LogEntry&) { throw 1; }); EXPECT(!THROWS(put('a')));", pre=PRELOG)
FET = "apps/huira_cli/commands/fetch_tycho2.cpp"; PRO = "apps/huira_cli/commands/process_tycho2.cpp"; CLIF = "apps/huira_cli/cli.cpp"
PREAPP = r"""#include <cstdarg>
#include "curl/curl.h"
#undef curl_easy_setopt
#include "huira/huira.hpp"
#define registered registered_fetch
#include "huira_cli/commands/fetch_tycho2.cpp"
#undef registered
#define registered registered_process
#include "huira_cli/commands/process_tycho2.cpp"
#undef registered
#ifndef HUIRA_VERSION
#define HUIRA_VERSION "0"
#endif
#include "huira_cli/cli.cpp"
using namespace huira; using namespace huira::cli; using namespace huira::cli::tycho2; using std::string;
struct Conn { string url; curl_write_callback f = nullptr; void* to = nullptr; }; static string refuse; static int asked;
static string record(bool sup) { string l(sup ? 123 : 206, ' '); for (int b : {12, 14, 27, 40, 48, 56}) l[(size_t)b] = '|'; auto w = [&](size_t c, const char* t) { for (; *t; ++t) l[c++] = *t; }; w(0, "0001 00008 1"); w(15, "307.12345678"); w(28, " -4.12345678"); w(sup ? 83 : 110, " 6.146"); w(sup ? 96 : 123, " 5.846"); return l + "\n"; }
static string served(const string& f) { return f == "tyc2.dat.00" || f == "tyc2.dat.19" ? record(false) : f == "suppl_2.dat" ? record(true) : "#\n"; }
extern "C" CURLcode curl_global_init(long) { return CURLE_OK; }
extern "C" CURL* curl_easy_init() { return new Conn; }
extern "C" void curl_easy_cleanup(CURL* c) { delete (Conn*)c; }
extern "C" const char* curl_easy_strerror(CURLcode) { return "error"; }
extern "C" CURLcode curl_easy_setopt(CURL* h, CURLoption o, ...) { auto* c = (Conn*)h; va_list a; va_start(a, o); if (o == CURLOPT_URL) c->url = va_arg(a, const char*); else if (o == CURLOPT_WRITEFUNCTION) c->f = va_arg(a, curl_write_callback); else if (o == CURLOPT_WRITEDATA) c->to = va_arg(a, void*); va_end(a); return CURLE_OK; }
extern "C" CURLcode curl_easy_perform(CURL* h) { auto* c = (Conn*)h; ++asked; string f = c->url.substr(c->url.rfind('/') + 1); f = f.substr(0, f.size() - 3); if (f == refuse) return CURLE_HTTP_RETURNED_ERROR; string d = served(f); return c->f(d.data(), 1, d.size(), c->to) == d.size() ? CURLE_OK : CURLE_WRITE_ERROR; }"""
ALIB = dict(pre=PREAPP, libs=ALL + ' -I"$PWD/apps" -I"$PWD/third_party/tclap"', stub="cspice tbb spicemodel indicators huira_cli")
seed("C42-unnoticed", "C42", [(FET, "    for (const auto& filename : tycho2_suppl_files) {", "    const int main_failures = failures;\n    for (const auto& filename : tycho2_suppl_files) {"), (FET, "    if (failures > 0) {", "    if (main_failures > 0) {")],
 "a supplement that cannot be downloaded", "success is reported although the catalogue is not complete",
 "refuse = \"suppl_2.dat\"; EXPECT(fetch_tycho2(\"cat\", Context{}, false) != 0); EXPECT(!fs::exists(\"cat/suppl_2.dat\"));", **ALIB)
seed("C42-stale", "C42", [(FET, "            update_bar(bar, \"Downloading \" + filename);\n        }\n\n        if (fs::exists(dest) && !force) {\n            if (ctx.verbose) {\n                std::cout << \"  Skipping (already exists)\\n\";\n            }\n            continue;\n        }\n\n        if (!download_file(url, dest, ctx)) {\n            ++failures;\n        }\n    }\n\n    // Restore", "            update_bar(bar, \"Downloading \" + filename);\n        }\n\n        if (fs::exists(dest)) {\n            if (ctx.verbose) {\n                std::cout << \"  Skipping (already exists)\\n\";\n            }\n            continue;\n        }\n\n        if (!download_file(url, dest, ctx)) {\n            ++failures;\n        }\n    }\n\n    // Restore")],
 "a catalogue fetched again by force", "the supplements stay as they were",
 "EXPECT(fetch_tycho2(\"cat\", Context{}, false) == 0); asked = 0; EXPECT(fetch_tycho2(\"cat\", Context{}, true) == 0); EXPECT(asked == 22);", **ALIB)
seed("C42-swept", "C42", [(PRO, "    StarCatalog catalog(all_stars);", "    if (clean) {\n        for (const auto& filename : tycho2_suppl_files) {\n            std::filesystem::remove(input_dir / filename);\n        }\n    }\n\n    StarCatalog catalog(all_stars);")],
 "cleaning up, and a catalogue that cannot be written", "the supplements are gone, and there is no catalogue",
 "EXPECT(fetch_tycho2(\"cat\", Context{}, false) == 0); fs::create_directories(\"out/tycho2.hrsc\"); EXPECT(THROWS(process_tycho2(\"cat\", \"out\", Context{}, true))); EXPECT(fs::exists(\"cat/suppl_2.dat\"));", **ALIB)
seed("C42-overtaken", "C42", [(PRO, "        std::vector<StarData> new_stars = huira::read_tycho2_suppl(path);\n        all_stars.insert(all_stars.end(), new_stars.begin(), new_stars.end());", "        std::vector<StarData> new_stars = huira::read_tycho2_suppl(path);\n        if (new_stars.size() > 1) {\n            all_stars.insert(all_stars.end(), new_stars.begin(), new_stars.end());\n        }")],
 "a supplement of a single star", "the star is missing in the catalogue",
 "EXPECT(fetch_tycho2(\"cat\", Context{}, false, true) == 0); EXPECT(StarCatalog::read_star_data(\"cat/tycho2.hrsc\").size() == 3);", **ALIB)
seed("C42-twice-loud", "C42", [(CLIF, "            ctx.verbose = true;\n            ++sub_start;", "            ctx.verbose = true;\n            sub_start = 2;")],
 "an option given twice before the command", "the option is taken for the command",
 "Registry::instance().add({\"probe\", \"\", [](const Context&, int n, char**) { return n + 4; }}); char* a[] = {(char*)\"huira\", (char*)\"-v\", (char*)\"--verbose\", (char*)\"probe\", (char*)\"x\", nullptr}; EXPECT(Registry::instance().dispatch(5, a) == 6);", **ALIB)
