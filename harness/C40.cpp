// C40: handles act on what they stand for
//! entry: sensor time=60
//! entry: optics time=60 opts=--sqrtq
//! entry: effects time=60
//! entry: placing time=60
//! entry: turning time=60
//! entry: texturing time=60
//! entry: lit time=40
//! entry: bearers time=40
//! libs: -lassimp -lfftw3f -lpng -lturbojpeg -ltiff -lcfitsio
//! assume: the ray-tracing library is a stand-in; CSPICE is modelled
//! bound: cameras of 2 by 2 pixels, one or two settings after each other, textures of one pixel
#define CAMRES 2
#include "scene34.hpp"
using H = CameraModelHandle<S>; using Sen = SimpleSensor<S>; using U = units::Micrometer; using MM = units::Millimeter;
struct Spy : Sen { static Spy* last; Spy() { last = this; } Spy(const SimpleSensorConfig<S>& c) : Sen(c) { last = this; } }; Spy* Spy::last;   // the camera's own sensor
static SimpleSensorConfig<S> start() { SimpleSensorConfig<S> c; c.resolution = Resolution(2, 2); c.full_well_capacity = 1111; c.read_noise = 22; c.dark_current = 33; c.bias_level_dn = 44; c.gain = 5.5f; c.bit_depth = 11; c.unity_db = 6; c.simulate_noise = true; c.rotation = units::Radian(0.25); return c; }
static void alike(const SensorModel<S>& a, const SensorModel<S>& b) {
    vp_check(a.full_well_capacity() == b.full_well_capacity(), "the full well is the one set"); vp_check(a.read_noise() == b.read_noise(), "the read noise is the one set"); vp_check(a.dark_current() == b.dark_current(), "the dark current is the one set"); vp_check(a.bias_level_dn() == b.bias_level_dn(), "the bias is the one set");
    vp_check(a.gain_adu() == b.gain_adu(), "the gain is the one set"); vp_check(a.unity_db() == b.unity_db(), "the unity level is the one set"); vp_check(a.bit_depth() == b.bit_depth(), "the bit depth is the one set"); vp_check(a.simulate_noise() == b.simulate_noise(), "noise is simulated as set"); vp_check_close(a.rotation().to_si(), b.rotation().to_si(), 1e-6, "the sensor is turned as set");
    vp_check(a.resolution() == b.resolution() && a.pixel_pitch().x == b.pixel_pitch().x && a.pixel_pitch().y == b.pixel_pitch().y, "the geometry is the one set"); for (size_t i = 0; i < 3; ++i) vp_check(a.quantum_efficiency()[i] == b.quantum_efficiency()[i], "the quantum efficiency is the one set");
}
ENTRY sensor() {   // every setting of the sensor, one or two after each other
    init(); Scene<S> sc; H h = sc.new_camera_model(), other = sc.new_camera_model(); other.set_sensor<Spy>(start()); Spy* o = Spy::last; h.set_sensor<Spy>(start()); Spy* s = Spy::last; Sen want(start()), stay(start()); H by = vp_choice("copy", 2) ? h : sc.get_camera_model(h.name()); bool t = false, w = false;
    for (int n = 0; n < 2; ++n) { float v = vp_inf("v", -10, 1e4f); int b = vp_int("b", -3, 20); switch (vp_choice("setting", 12)) {
        case 0: t = vp_throws([&] { by.set_sensor_full_well_capacity(v); }); w = vp_throws([&] { want.set_full_well_capacity(v); }); break; case 1: t = vp_throws([&] { by.set_sensor_read_noise(v); }); w = vp_throws([&] { want.set_read_noise(v); }); break;
        case 2: t = vp_throws([&] { by.set_sensor_dark_current(v); }); w = vp_throws([&] { want.set_dark_current(v); }); break; case 3: t = vp_throws([&] { by.set_sensor_bias_level(v); }); w = vp_throws([&] { want.set_bias_level_dn(v); }); break;
        case 4: t = vp_throws([&] { by.set_sensor_gain(v); }); w = vp_throws([&] { want.set_gain_adu(v); }); break; case 5: t = vp_throws([&] { by.set_sensor_uinty_db(v); }); w = vp_throws([&] { want.set_unity_db(v); }); break;
        case 6: t = vp_throws([&] { by.set_sensor_bit_depth(b); }); w = vp_throws([&] { want.set_bit_depth(b); }); break; case 7: by.set_sensor_simulate_noise(b > 0); want.set_simulate_noise(b > 0); t = w = false; break;
        case 8: by.set_sensor_rotation(units::Degree(v)); want.set_rotation(units::Degree(v)); t = w = false; break; case 9: t = vp_throws([&] { by.set_sensor_quantum_efficiency(S{v, v / 2, v / 4}); }); w = vp_throws([&] { want.set_quantum_efficiency(S{v, v / 2, v / 4}); }); break;
        case 10: t = vp_throws([&] { by.set_sensor_gain_db(v / 100); }); w = vp_throws([&] { want.set_gain_db(v / 100); }); break;
        default: t = vp_throws([&] { by.set_sensor_quantum_efficiency((double)v); }); w = vp_throws([&] { want.set_quantum_efficiency(S{v, v, v}); }); } vp_check(t == w, "settings are refused exactly when the sensor refuses them"); }
    alike(*s, want); alike(*o, stay); vp_cover("sensor");
}
template <typename T> struct Spot : PSF<T> { Spot(int r, float a, int banks = 1) { auto& q = this->cache_; q.radius = r; q.banks = banks; q.dim = 2 * r + 1; float n = (float)(q.dim * q.dim); for (int b = 0; b < banks * banks; ++b) { Image<T> im(q.dim, q.dim); for (int y = 0; y < q.dim; ++y) for (int x = 0; x < q.dim; ++x) { float v = x == r && y == r ? 1 - a * (n - 1) : a; im(x, y) = T{v, v, v}; } q.kernels.push_back(im); } } T evaluate(float, float) override { return T{0}; } };
static double want_psf[2][4];   // what an aperture was asked to blur for
template <typename T> struct Lens : CircularAperture<T> { int me; explicit Lens(int m) : CircularAperture<T>(units::Meter(0.02)), me(m) {} std::unique_ptr<PSF<T>> make_psf(units::Meter f, units::Meter x, units::Meter y, int r, int b) override { double* a = want_psf[me]; a[0] = f.to_si(); a[1] = x.to_si(); a[2] = y.to_si(); a[3] = 1000 * b + r; return std::make_unique<Spot<T>>(std::min(r, 2), 0.03125f, std::min(b, 2)); } };
static void lenses(const H& h, Cam& b) { h.template set_aperture<Lens<S>>(0); b.template set_aperture<Lens<S>>(1); for (auto& a : want_psf) for (double& v : a) v = 0; }
static void same(const Cam& a, const H& h, const Cam& b) {
    vp_check(h.focal_length().to_si() == b.focal_length().to_si() && a.focal_length().to_si() == b.focal_length().to_si(), "the focal length is the one set"); vp_check(h.fstop() == b.fstop(), "the f-number is the one set"); vp_check(h.get_focus_distance().to_si() == b.get_focus_distance().to_si() && h.get_diopters().to_si() == b.get_diopters().to_si(), "the focus is the one set"); vp_check(a.resolution() == b.resolution(), "the resolution is the one set"); FB f = h.make_frame_buffer(); vp_check(f.width() == b.resolution().x && f.height() == b.resolution().y, "frame buffers have the camera's size");
    F3 p = vp_vec3in<float>("p", 0.5f, 10); Pixel s = h.project_point(p), q = b.project_point(p); vp_check_close(s.x, q.x, 1e-5, "points project as the camera projects them"); vp_check_close(s.y, q.y, 1e-5, "points project as the camera projects them"); vp_check(a.is_blender_convention() == b.is_blender_convention(), "the axis convention is the one set"); DeterministicSampler<float> d(0.5f, Vec2<float>(0.9f, 0.3f)), e(0.5f, Vec2<float>(0.9f, 0.3f)); Pixel at(1.25f, 0.5f);
    auto r = a.cast_ray(at, d), u = b.cast_ray(at, e); vp_close3(r.origin() * 1e3f, u.origin() * 1e3f, 1e-5, "rays start as the camera's do"); vp_close3(r.direction(), u.direction(), 1e-5, "rays go as the camera's do"); vp_check_close(1e6 * a.pixel_radiance_to_power(0, 1), 1e6 * b.pixel_radiance_to_power(0, 1), 1e-5, "light is collected as set");
    vp_check(a.has_psf() == b.has_psf(), "light is blurred if asked for"); if (a.has_psf()) for (int k = 0; k < 4; ++k) vp_check(want_psf[0][k] == want_psf[1][k], "the aperture blurs for the optics set"); if (a.has_psf()) { vp_check(a.get_psf_radius() == b.get_psf_radius(), "the blur is the one set"); const auto &k = a.get_psf_kernel(0, 0), &m = b.get_psf_kernel(0, 0); for (size_t i = 0; i < k.size(); ++i) for (size_t c = 0; c < 3; ++c) vp_check(k[i][c] == m[i][c], "the blur is the one set"); }
}
ENTRY optics() {   // settings of the optics: the handle's camera is like one set directly
    init(); Scene<S> sc; H h = sc.new_camera_model(), rest = sc.new_camera_model(); Cam b, plain; float v = vp_inf("v", 0.5f, 8), w = vp_inf("w", 0.5f, 8); int op = vp_choice("op", 19); if (vp_choice("before", 2)) { h.set_brown_conrady_distortion(BrownCoefficients(0.02, 0, 0, 0.003, -0.002)); b.set_brown_conrady_distortion(BrownCoefficients(0.02, 0, 0, 0.003, -0.002)); h.enable_depth_of_field(); b.enable_depth_of_field(); }
    switch (op) { case 0: h.set_focal_length(MM(40.)); b.set_focal_length(MM(40.)); break; case 1: h.set_fstop(v); b.set_fstop(v); break; case 2: h.set_brown_conrady_distortion(BrownCoefficients(0.02, 0.01, 0, 0.003, -0.002)); b.set_brown_conrady_distortion(BrownCoefficients(0.02, 0.01, 0, 0.003, -0.002)); break;
    case 3: h.set_opencv_distortion(OpenCVCoefficients(0.01, 0.02, 0, 0.03, 0.01, 0, 0.001, 0.002, 0, 0, 0, 0)); b.set_opencv_distortion(OpenCVCoefficients(0.01, 0.02, 0, 0.03, 0.01, 0, 0.001, 0.002, 0, 0, 0, 0)); break; case 4: h.set_owen_distortion(OwenCoefficients(0.01, -0.02, 0.01, 0, 0.005, -0.003)); b.set_owen_distortion(OwenCoefficients(0.01, -0.02, 0.01, 0, 0.005, -0.003)); break;
    case 5: h.delete_distortion(); b.delete_distortion(); break; case 6: h.configure_sensor_from_pitch(Resolution(2, 3), U(10000.), U(5000.), 0.5f, 2.f); b.configure_sensor_from_pitch(Resolution(2, 3), U(10000.), U(5000.), 0.5f, 2.f); break; case 7: h.configure_sensor_from_size(Resolution(2, 3), MM(30.), MM(40.), 0.75f, 1.25f); b.configure_sensor_from_size(Resolution(2, 3), MM(30.), MM(40.), 0.75f, 1.25f); break;
    case 8: { Mat3<float> m(3, 0, 0, 0, 5, 0, 1, 2.5f, 1); h.set_intrinsic_matrix(m, Resolution(3, 2), MM(60.)); b.set_intrinsic_matrix(m, Resolution(3, 2), MM(60.)); break; } case 9: h.set_intrinsics(3, 5, 1, 2.5f, Resolution(3, 2), MM(60.)); b.set_intrinsics(3, 5, 1, 2.5f, Resolution(3, 2), MM(60.)); break;
    case 10: h.set_aperture<CircularAperture<S>>(units::Meter(0.01)); b.set_aperture<CircularAperture<S>>(units::Meter(0.01)); break; case 11: h.use_blender_convention(true); b.use_blender_convention(true); if (vp_choice("back", 2)) { h.use_blender_convention(false); b.use_blender_convention(false); } break;
    case 12: h.enable_depth_of_field(true); b.enable_depth_of_field(true); if (vp_choice("back", 2)) { h.enable_depth_of_field(false); b.enable_depth_of_field(false); } break; case 13: h.enable_depth_of_field(true); b.enable_depth_of_field(true); h.set_focus_distance(units::Meter((double)v)); b.set_focus_distance(units::Meter((double)v)); break; case 14: h.enable_depth_of_field(true); b.enable_depth_of_field(true); h.set_diopters(units::Diopter((double)w)); b.set_diopters(units::Diopter((double)w)); break;
    case 15: h.template set_psf<Spot<S>>(1, 0.25f); b.template set_psf<Spot<S>>(1, 0.25f); if (vp_choice("back", 2)) { h.delete_psf(); b.delete_psf(); } break; case 16: lenses(h, b); h.use_aperture_psf(2, 3); b.use_aperture_psf(2, 3); if (vp_choice("after", 2)) { h.set_focal_length(MM(40.)); b.set_focal_length(MM(40.)); } break; case 17: lenses(h, b); if (vp_choice("back", 2)) { h.use_aperture_psf(1, 2); h.use_aperture_psf(false); } else { h.use_aperture_psf(true); b.use_aperture_psf(); } break;
    default: { SimpleSensorConfig<S> c; c.resolution = Resolution(2, 4); c.pitch_x = U(5000.); c.pitch_y = U(10000.); h.set_sensor<Sen>(c); b.configure_sensor_from_pitch(Resolution(2, 4), U(5000.), U(10000.)); } }
    same(*h.get(), h, b); same(*rest.get(), rest, plain); vp_cover("optics");
}

static void glow(World& w, S em) { auto m = w.sc.new_material(w.sc.new_bsdf_lambertian()); m.get()->set_emissive_factor(em); w.put(w.sc.add_primitive(tri(w.sc), m), D3(-0.25, -0.25, 50)); }
static FB shot(World& w) { auto v = w.view(); FB fb = w.C.make_frame_buffer(); fb.enable_received_power(); Rend R; R.set_max_bounces(1); R.set_samples_per_pixel(1); script({}); R.render(v, fb); return fb; }
ENTRY effects() {   // what is added to the image: glare and blur
    init(); World a(0), b(0); S e = rgb("glow", 0, 100), bg = rgb("star", 0, 1); glow(a, e); glow(b, e); Cam& c = *b.C.get(); a.sc.set_stars({Star<S>(a.K * D3(0.001, 0.001, 1), bg)}); b.sc.set_stars({Star<S>(b.K * D3(0.001, 0.001, 1), bg)}); float v = vp_inf("v", 0, 1);
    switch (vp_choice("effect", 6)) { case 0: a.C.set_veiling_glare(v); c.set_veiling_glare(v); break; case 1: a.C.set_veiling_glare(v); a.C.disable_veiling_glare(); break; case 2: a.C.template set_psf<Spot<S>>(1, 0.25f); c.template set_psf<Spot<S>>(1, 0.25f); break; case 3: a.C.template set_psf<Spot<S>>(1, 0.25f); a.C.enable_psf_convolution(); c.template set_psf<Spot<S>>(1, 0.25f); c.enable_psf_convolution(); break;
    case 4: a.C.template set_psf<Spot<S>>(1, 0.25f); a.C.enable_psf_convolution(true); a.C.enable_psf_convolution(false); c.template set_psf<Spot<S>>(1, 0.25f); break; default: lenses(a.C, c); a.C.use_aperture_psf(1, 1); c.use_aperture_psf(1, 1); }
    FB x = shot(a), y = shot(b); for (int j = 0; j < 2; ++j) for (int i = 0; i < 2; ++i) same(x.received_power()(i, j), y.received_power()(i, j), 1e-5, "images are those of a camera set directly"); vp_cover("effects");
}
static D3 v3(const char* n) { return vp_vec3in<double>(n, -100, 100); }
static void close(const D3& a, const D3& b, const char* l) { vp_close3(a, b, 1e-6, l); }
ENTRY placing() {   // where nodes are and how they move
    init(); Scene<S> sc; auto f = sc.root.new_subframe(), g = f.new_subframe(), o = sc.root.new_subframe(); auto l = sc.new_sphere_light(units::Meter(1.), units::Watt(1.)); auto i = g.new_instance(l); D3 p = v3("p"), v = v3("v"), w = v3("w"), s = vp_vec3in<double>("s", 0.1, 10); bool body = vp_choice("body", 2), one = vp_choice("even", 2);
    auto put = [&](auto& h) { h.set_position(units::Kilometer(p.x), units::Meter(p.y), units::Meter(p.z)); h.set_velocity(units::MetersPerSecond(v.x), units::MetersPerSecond(v.y), units::MetersPerSecond(v.z)); if (body) h.set_body_angular_velocity(units::RadiansPerSecond(w.x), units::RadiansPerSecond(w.y), units::RadiansPerSecond(w.z)); else h.set_angular_velocity(units::RadiansPerSecond(w.x), units::RadiansPerSecond(w.y), units::RadiansPerSecond(w.z)); if (one) h.set_scale(s.x); else h.set_scale(s.x, s.y, s.z); };
    auto is = [&](auto& h, auto& n) { D3 q(p.x * 1000, p.y, p.z), k = one ? D3(s.x) : s; close(h.get_static_position(), q, "nodes are where they are put"); close(h.get_static_velocity(), v, "nodes move as set"); close(h.get_static_angular_velocity(), w, "nodes turn as set"); close(h.get_static_scale(), k, "nodes are as big as set"); close(n.get_static_position(), q, "nodes are where they are put"); close(n.get_static_velocity(), v, "nodes move as set"); close(n.get_static_angular_velocity(), w, "nodes turn as set"); close(n.get_static_scale(), k, "nodes are as big as set"); };
    int who = vp_choice("who", 3); if (who == 0) { put(f); is(f, *f.get()); } else if (who == 1) { put(i); is(i, *i.get()); } else { auto h = i.get_parent(); put(h); is(g, *h.get()); auto t = i.template get_parent_as<FrameNode<S>>(); is(t, *g.get()); vp_check(vp_throws([&] { i.template get_parent_as<Instance<S>>(); }), "parents are of their own kind only"); }
    auto twin = sc.root.get()->new_child().lock(); Rot R = turn(2); o.set_rotation(R); twin->set_rotation(R); auto W = [](double q) { return units::RadiansPerSecond(q); }; if (body) { o.set_body_angular_velocity(W(w.x), W(w.y), W(w.z)); twin->set_body_angular_velocity(W(w.x), W(w.y), W(w.z)); } else { o.set_angular_velocity(W(w.x), W(w.y), W(w.z)); twin->set_angular_velocity(W(w.x), W(w.y), W(w.z)); }
    auto see = [](const Node<S>& n) { return n.get_apparent_transform(ObservationMode::TRUE_STATE, Time::from_et(3), Time::from_et(3), Transform<double>{}); }; close(see(*o.get()).angular_velocity, see(*twin).angular_velocity, "rates are about the axes they were given for"); close(see(*o.get()).angular_velocity, body ? R * w : w, "rates are about the axes they were given for"); close(o.get_static_position(), D3(0), "other nodes stay"); close(o.get_static_scale(), D3(1), "other nodes stay"); close(o.get_static_velocity(), D3(0), "other nodes stay"); vp_check(g.get_parent().get().get() == f.get().get() && f.get_parent().get().get() == sc.root.get().get(), "nodes know their parents"); vp_check(vp_throws([&] { sc.root.get_parent(); }), "the root has no parent"); vp_cover("placing");
}
ENTRY turning() {   // every way to say how a node is turned, and ephemeris names
    init(); Scene<S> sc; auto f = sc.root.new_subframe(); auto n = std::make_shared<FrameNode<S>>(nullptr); const double* q = TQ[vp_choice("Q", 3)]; Mat3<double> M(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8]); double a = 0; D3 ax(0.48, -0.6, 0.64); a = vp_in("angle", -180, 180); Quaternion<double> Q{0.5, 0.1, -0.7, 0.5}; Rot want; int k = vp_choice("how", 9); D3 x = v3("x");
    switch (k) { case 0: f.set_rotation_local_to_parent(M); want = Rot::from_local_to_parent(M); break; case 1: f.set_rotation_parent_to_local(M); want = Rot::from_parent_to_local(M); break; case 2: f.set_rotation_local_to_parent(Q); want = Rot::from_local_to_parent(Q); break; case 3: f.set_rotation_parent_to_local(Q); want = Rot::from_parent_to_local(Q); break;
    case 4: f.set_rotation_local_to_parent(ax, units::Degree(a)); want = Rot::from_local_to_parent(ax, units::Degree(a)); break; case 5: f.set_rotation_parent_to_local(ax, units::Degree(a)); want = Rot::from_parent_to_local(ax, units::Degree(a)); break; case 6: f.set_euler_angles(units::Degree(a), units::Radian(0.25), units::Radian(-0.5), "ZXY"); want = Rot::extrinsic_euler_angles(units::Degree(a), units::Radian(0.25), units::Radian(-0.5), "ZXY"); break;
    case 7: f.set_euler_angles(units::Degree(a), units::Radian(0.25), units::Radian(-0.5)); want = Rot::extrinsic_euler_angles(units::Degree(a), units::Radian(0.25), units::Radian(-0.5), "XYZ"); break; default: f.set_rotation(Rot::from_local_to_parent(M)); want = Rot::from_local_to_parent(M); }
    close(f.get_static_rotation() * x, want * x, "nodes are turned as said"); close(f.get()->get_static_rotation() * x, want * x, "nodes are turned as said"); close(f.get_static_position(), D3(0), "nothing else changes");
    auto e = sc.root.new_subframe(); int how = vp_choice("names", 4); if (how == 0) e.set_spice("A", "F"); else if (how == 1) e.set_spice_origin("A"); else if (how == 2) e.set_spice_frame("F"); else e = sc.root.new_spice_subframe("A", "F"); bool po = how != 2, ro = how != 1; if (po) vp_check(e.get_spice_origin() == "A" && e.get()->get_spice_origin() == "A", "bodies and frames of the ephemeris are the ones named"); else vp_check(vp_throws([&] { e.get_spice_origin(); }), "only what follows the ephemeris has a body"); if (ro) vp_check(e.get_spice_frame() == "F" && e.get()->get_spice_frame() == "F", "bodies and frames of the ephemeris are the ones named"); else vp_check(vp_throws([&] { e.get_spice_frame(); }), "only what follows the ephemeris has a frame"); vp_check(vp_throws([&] { e.set_velocity(units::MetersPerSecond(1.), units::MetersPerSecond(0.), units::MetersPerSecond(0.)); }) == po, "what the ephemeris says is not overwritten"); vp_cover("turning");
}
static S tint(const char* n) { F3 v = vp_vec3in<float>(n, 0, 1); return S{v.x, v.y, v.z}; }
ENTRY texturing() {   // every setting of a material acts on that parameter of that material
    init(); Scene<S> sc; auto b = sc.new_bsdf_cook_torrance(); auto m = sc.new_material(b), o = sc.new_material(b), d = sc.new_material(b); S c = tint("c"), f = tint("f"); float g = vp_inf("g", 0, 1), h = vp_inf("h", 0.01f, 1); Image<S> ci(1, 1); ci(0, 0) = c; Image<float> gi(1, 1); gi(0, 0) = g; Image<F3> ni(1, 1); ni(0, 0) = F3(0.6f, 0, 0.8f); auto C = sc.add_texture(std::move(ci)); auto G = sc.add_texture(std::move(gi)); auto N = sc.add_texture(std::move(ni)); auto D = d.get(); int slot = vp_choice("slot", 7), undo = vp_choice("undo", 3);
    vp_check(C.resolution() == Resolution(1, 1), "textures have the size of their images"); if (undo == 1) for (auto p : {m.get(), D}) { p->set_albedo_factor(f); p->set_alpha_factor(h); p->set_metallic_factor(h); p->set_roughness_factor(h); p->set_normal_image(N.get()->shared_image()); p->set_transmission_factor(f); p->set_emissive_factor(f); }
    if (undo < 2) switch (slot) { case 0: m.set_albedo_image(C); m.set_albedo_factor(f); break; case 1: m.set_alpha_image(G); m.set_alpha_factor(h); break; case 2: m.set_metallic_image(G); m.set_metallic_factor(h); break; case 3: m.set_roughness_image(G); m.set_roughness_factor(h); break; case 4: m.set_normal_image(N); m.set_normal_factor(h); break; case 5: m.set_transmission_image(C); m.set_transmission_factor(f); break; default: m.set_emissive_image(C); m.set_emissive_factor(f); }
    if (undo == 1) switch (slot) { case 0: m.reset_albedo(); D->reset_albedo(); break; case 1: m.reset_alpha(); D->reset_alpha(); break; case 2: m.reset_metallic(); D->reset_metallic(); break; case 3: m.reset_roughness(); D->reset_roughness(); break; case 4: m.reset_normal(); D->reset_normal(); break; case 5: m.reset_transmission(); D->reset_transmission(); break; default: m.reset_emissive(); D->reset_emissive(); }
    else if (undo == 0) switch (slot) { case 0: D->set_albedo(C.get()->shared_image()); D->set_albedo_factor(f); break; case 1: D->set_alpha(G.get()->shared_image()); D->set_alpha_factor(h); break; case 2: D->set_metallic_image(G.get()->shared_image()); D->set_metallic_factor(h); break; case 3: D->set_roughness_image(G.get()->shared_image()); D->set_roughness_factor(h); break; case 4: D->set_normal_image(N.get()->shared_image()); D->set_normal_factor(h); break; case 5: D->set_transmission_image(C.get()->shared_image()); D->set_transmission_factor(f); break; default: D->set_emissive_image(C.get()->shared_image()); D->set_emissive_factor(f); }
    Interaction<S> i; i.position = F3(1, 2, 3); i.normal_g = i.normal_s = i.wo = F3(0, 0, 1); i.tangent = F3(1, 0, 0); i.bitangent = F3(0, 1, 0); i.uv = Vec2<float>(0.5f, 0.5f); auto x = m.get()->evaluate(i), y = D->evaluate(i), z = o.get()->evaluate(i); S one{1, 1, 1}; S al = undo || slot ? one : c * f;
    for (size_t k = 0; k < 3; ++k) { vp_check_close(x.params.albedo[k], y.params.albedo[k], 1e-6, "the albedo is as set"); if (undo != 1) vp_check_close(x.params.albedo[k], al[k], 1e-5, "the albedo is as set"); vp_check_close(x.params.transmission[k], y.params.transmission[k], 1e-6, "the transmission is as set"); vp_check_close(x.params.emission[k], y.params.emission[k], 1e-6, "the emission is as set"); vp_check(z.params.albedo[k] == 1 && z.params.emission[k] == 0, "other materials stay"); if (!undo && slot == 6) vp_check_close(x.params.emission[k], c[k] * f[k], 1e-5, "the emission is as set"); if (!undo && slot == 5) vp_check_close(x.params.transmission[k], c[k] * f[k], 1e-5, "the transmission is as set"); }
    vp_check_close(x.params.opacity, y.params.opacity, 1e-6, "the opacity is as set"); vp_check_close(x.params.metallic, y.params.metallic, 1e-6, "metallic is as set"); vp_check_close(x.params.roughness, y.params.roughness, 1e-6, "roughness is as set"); vp_close3(x.isect.normal_s, y.isect.normal_s, 1e-5, "normals are as set"); if (!undo && slot == 1) vp_check_close(x.params.opacity, g * h, 1e-5, "the opacity is as set"); if (!undo && slot == 2) vp_check_close(x.params.metallic, g * h, 1e-5, "metallic is as set"); vp_check(z.params.opacity == 1, "other materials stay"); vp_cover("texturing");
}
ENTRY lit() {   // brightness of unresolved objects, and models of reflection
    init(); Scene<S> sc; double q = vp_in("q", 0, 1e3); S e = tint("e"); auto a = sc.new_unresolved_object(units::WattsPerMeterSquared(1.)), o = sc.new_unresolved_object(units::WattsPerMeterSquared(2.)); UnresolvedObject<S> d(units::WattsPerMeterSquared(1.)), r(units::WattsPerMeterSquared(2.)); if (vp_choice("spectral", 2)) { a.set_irradiance(units::SpectralWattsPerMeterSquared<S>(e)); d.set_irradiance(units::SpectralWattsPerMeterSquared<S>(e)); } else { a.set_irradiance(units::WattsPerMeterSquared(q)); d.set_irradiance(units::WattsPerMeterSquared(q)); }
    Time t = Time::from_et(vp_in("t", -100, 100)); for (size_t k = 0; k < 3; ++k) { vp_check(a.get_irradiance(t)[k] == d.get_irradiance(t)[k], "points of light are as bright as set"); vp_check(o.get_irradiance(t)[k] == r.get_irradiance(t)[k], "other points of light stay"); }
    auto lam = sc.new_bsdf_lambertian(), nul = sc.new_bsdf_null(), ls = sc.new_bsdf_lommel_seeliger(); auto m = sc.new_material(lam), n = sc.new_material(lam); if (vp_choice("other", 2)) m.set_bsdf(ls.get()); else m.set_bsdf(nul.get()); m.set_bsdf(vp_choice("back", 2) ? lam.get() : ls.get()); vp_check(lam.type() != ls.type() && lam.id() != ls.id(), "models of reflection are told apart"); auto mm = n.get(); Interaction<S> i; i.normal_g = i.normal_s = i.wo = F3(0, 0, 1); i.tangent = F3(1, 0, 0); i.bitangent = F3(0, 1, 0); i.uv = Vec2<float>(0.5f, 0.5f); F3 in(0.6f, 0, 0.8f); auto ev = mm->evaluate(i); S f = mm->bsdf_eval(i.wo, in, ev), w = lam.get()->eval(i.wo, in, ev.isect, ev.params); for (size_t k = 0; k < 3; ++k) vp_check_close(f[k], w[k], 1e-6, "other materials stay"); vp_cover("lit");
}
struct Sun : SphereLight<S> { using SphereLight<S>::SphereLight; };
ENTRY bearers() {   // handles of what is gone, or was never in a scene, are refused; kinds are told apart
    init(); int k = vp_choice("kind", 5); bool gone = vp_choice("gone", 2); auto sc = std::make_unique<Scene<S>>(); H c = sc->new_camera_model(); auto l = sc->new_sphere_light(units::Meter(1.), units::Watt(1.)); auto f = sc->root.new_subframe(); auto u = sc->new_unresolved_object(units::WattsPerMeterSquared(1.)); auto in = f.new_instance(c); std::uint64_t id = c.id();
    vp_check(c.valid() && l.valid() && f.valid() && u.valid() && in.valid() && c.type() == "CameraModel" && c.id() == id && c.get()->id() == id && c.name() == c.get()->name(), "handles tell what they stand for"); { Handle<Cam> cast(c); vp_check(cast.get().get() == c.get().get() && cast.id() == id, "copies stand for the same"); }
    if (gone) { bool kept = vp_choice("kept", 2); auto kc = kept ? c.get() : nullptr; auto kl = kept ? l.get() : nullptr; auto kf = kept ? f.get() : nullptr; auto ku = kept ? u.get() : nullptr; auto ki = kept ? in.get() : nullptr; if (!kept && vp_choice("scene", 2)) sc.reset(); else { bool first = vp_choice("order", 2); if (first) sc->root.delete_subframe(f); sc->delete_camera_model(c); sc->delete_light(l); sc->delete_unresolved_object(u); if (!first) sc->root.delete_subframe(f); }
        vp_check(!c.valid() && !l.valid() && !f.valid() && !u.valid() && !in.valid(), "handles of what is gone are not valid"); bool t = false; switch (k) { case 0: t = vp_throws([&] { c.set_fstop(2); }) && vp_throws([&] { c.get(); }); break; case 1: t = vp_throws([&] { l.get(); }) && vp_throws([&] { l.name(); }); break; case 2: t = vp_throws([&] { f.set_scale(2); }) && vp_throws([&] { f.new_subframe(); }); break; case 3: t = vp_throws([&] { u.set_irradiance(units::WattsPerMeterSquared(1.)); }) && vp_throws([&] { u.id(); }); break; default: t = vp_throws([&] { in.set_scale(2); }) && vp_throws([&] { in.get_parent(); }); } vp_check(t, "what is gone cannot be used"); }
    else { vp_check(vp_throws([&] { l.get<Sun>(); }) && l.get<SphereLight<S>>().get() == l.get().get(), "handles give the type they hold only"); } vp_cover("bearers");
}
