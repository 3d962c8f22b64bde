#pragma once
// A camera in a scene of planes that face it, and scripted random numbers
#include "spicemodel/spice_model.hpp"
#include "cam.hpp"
#include "huira/render/sampler.hpp"
static std::vector<float> rolls; static size_t rolled; static float roll() { return rolled < rolls.size() ? rolls[rolled++] : 0.5f; }   // the random numbers, in order
#ifndef REALDICE
template <> inline float huira::RandomSampler<float>::get_1d() { return roll(); }
template <> inline huira::Vec2<float> huira::RandomSampler<float>::get_2d() { float a = get_1d(); return huira::Vec2<float>(a, get_1d()); }
#endif
#include "embree.hpp"
#include "huira/huira.hpp"
using S = RGB; using D3 = Vec3<double>; using SV = SceneView<S>; using HI = InstanceHandle<S>; using Rot = Rotation<double>; using FB = FrameBuffer<S>;
static unsigned fate = 5; void std::random_device::_M_init(const std::string&) {} void std::random_device::_M_fini() {} unsigned std::random_device::_M_getval() { return fate = fate * 1664525u + 1013904223u; }   // what the system calls random
static const double TQ[3][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {0.6, 0.8, 0, -0.8, 0.6, 0, 0, 0, 1}, {0.36, 0.48, 0.8, -0.8, 0.6, 0, -0.48, -0.64, 0.6}};
static Rot turn(int i) { const double* q = TQ[i]; return Rot::from_local_to_parent(Mat3<double>(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8])); }
static void init() { spice::lsk_loaded.store(true); sm::body = [](const char*, double, double* s) { for (int k = 0; k < 6; ++k) s[k] = 0; }; sm::frame = [](const char*, double, double (*M)[3], double* w) { for (int i = 0; i < 3; ++i) { w[i] = 0; for (int j = 0; j < 3; ++j) M[i][j] = i == j; } }; ehit = eplanes; }
static MeshHandle<S> tri(Scene<S>& sc) { VertexBuffer<S> v(3); v[0].position = F3(0, 0, 0); v[1].position = F3(1, 0, 0); v[2].position = F3(0, 1, 0); for (auto& q : v) q.normal = F3(0, 0, 1); return sc.add_mesh({0, 1, 2}, v); }
struct Rend : Renderer<S> { using Renderer<S>::path_trace_; using Renderer<S>::render_unresolved_; };
struct World { Scene<S> sc; CameraModelHandle<S> C; HI cam; Rot K; D3 pc;
    World(int rot = 0) : C(sc.new_camera_model()), cam(sc.root.new_instance(C)) { Rot R = turn(rot); pc = D3(10, -20, 5); cam.set_rotation(R); at(cam, pc); K = R * C.get()->sensor_rotation(); }
    static void at(HI& i, D3 p) { i.set_position(units::Meter(p.x), units::Meter(p.y), units::Meter(p.z)); }
    template <class H> HI put(H h, D3 p) { HI i = sc.root.new_instance(h); at(i, pc + K * p); i.set_rotation(K); return i; }
    SV view(ObservationMode m = ObservationMode::TRUE_STATE, double b = 7) { return SV(sc, Interval{Time::from_et(7), Time::from_et(b)}, cam, m, b > 7 ? 2 : 1); } };
static S rgb(const char* n, float lo, float hi) { float v = vp_inf(n, lo, hi); S s; for (int k = 0; k < 3; ++k) s[k] = v / (float)(1 << k); return s; }
static void same(S a, S b, double tol, const char* l) { for (int c = 0; c < 3; ++c) vp_check_close(a[c], b[c], tol, l); }
static D3 d3(F3 v) { return D3(v.x, v.y, v.z); }
static void script(std::vector<float> r) { rolls = std::move(r); rolled = 0; }
