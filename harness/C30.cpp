// C30: nodes of the scene graph
//! entry: chain time=60
//! entry: spin time=60
//! entry: ephemeris time=60
//! entry: light_time time=60
//! entry: aberrated time=60
//! entry: approach time=60
//! entry: late time=60
//! entry: settings time=60
//! entry: rules time=40
//! entry: callbacks time=40
//! libs: -lembree4 -lassimp -lfftw3f -lpng -lturbojpeg -ltiff -lcfitsio
//! assume: CSPICE is not installed: its functions are modelled (any states, orientations and rates)
//! bound: chains of two nodes below the root, uniform scales, spin axes from a table, speeds from a table for light time, four settings in sequence; exact real arithmetic
#include "spicemodel/spice_model.hpp"
#include "vp.hpp"
#include "embree.hpp"
#include "huira/huira.hpp"
using namespace huira; using S = RGB; using D3 = Vec3<double>; using N = FrameNode<S>; using T = Transform<double>;
static const double C = 299792458; static D3 bp[2], bv[2], fw[2]; static Mat3<double> fm[2];
static void init() { spice::lsk_loaded.store(true);
    sm::body = [](const char* n, double et, double* s) { for (int k = 0; k < 6; ++k) s[k] = 0; if (n[0] == 'B') for (int i = n[1] - '0', k = 0; k < 3; ++k) { s[k] = (bp[i][k] + bv[i][k] * et) / 1000; s[k + 3] = bv[i][k] / 1000; } };
    sm::frame = [](const char* n, double, double (*M)[3], double* w) { bool f = n[0] == 'F'; int q = f ? n[1] - '0' : 0; for (int i = 0; i < 3; ++i) { w[i] = f ? fw[q][i] : 0; for (int j = 0; j < 3; ++j) M[i][j] = f ? fm[q][i][j] : i == j; } }; }
struct Root : N { Root() : N(nullptr) { init(); this->set_spice("SOLAR SYSTEM BARYCENTER", "J2000"); } };
static D3 vec(const char* n, double m) { return vp_vec3in<double>(n, -m, m); }
static const double TQ[4][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {0, 1, 0, 0, 0, 1, 1, 0, 0}, {0.6, 0.8, 0, -0.8, 0.6, 0, 0, 0, 1}, {0.36, 0.48, 0.8, -0.8, 0.6, 0, -0.48, -0.64, 0.6}};
static Rotation<double> turn(int i) { const double* q = TQ[i]; return Rotation<double>::from_local_to_parent(Mat3<double>(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8])); }
static T see(const Node<S>& n, double ep, double t, ObservationMode m = ObservationMode::TRUE_STATE, T o = T{}) { return n.get_apparent_transform(m, Time::from_et(ep), Time::from_et(t), o); }
static void same(const Rotation<double>& a, const Rotation<double>& b, double tol, const char* l) { for (int k = 0; k < 3; ++k) { D3 e(0); e[k] = 1; vp_close3(a * e, b * e, tol, l); } }
ENTRY chain() {   // two moving nodes
    Root r; auto a = r.new_child().lock(), b = a->new_child().lock(); D3 pa = vec("pa", 1e3), va = vec("va", 10), pb = vec("pb", 1e3), vb = vec("vb", 10); double s = vp_in("s", 0.1, 10); int i = vp_choice("Ra", 4), j = vp_choice("Rb", 2) + 2; Rotation<double> Ra = turn(i), Rb = turn(j); a->set_position(pa); a->set_velocity(va); a->set_rotation(Ra); a->set_scale(s, s, s); b->set_position(units::Meter(pb.x), units::Meter(pb.y), units::Meter(pb.z)); b->set_velocity(units::MetersPerSecond(vb.x), units::MetersPerSecond(vb.y), units::MetersPerSecond(vb.z)); b->set_rotation(Rb); double sb = vp_in("sb", 0.1, 10); b->set_scale(D3(sb));
    double ep = vp_in("epoch", -100, 100), t = vp_in("t", -100, 100), dt = t - ep; T w = see(*b, ep, t); vp_close3(w.position, pa + va * dt + Ra * ((pb + vb * dt) * s), 1e-6, "positions are the nodes' composed, moved since the epoch"); vp_close3(w.velocity, va + Ra * (vb * s), 1e-6, "velocities are composed"); same(w.rotation, Ra * Rb, 1e-9, "rotations are composed"); vp_close3(w.scale, D3(s * sb), 1e-9, "scales multiply"); vp_close3(w.angular_velocity, D3(0), 1e-9, "nothing spins by itself"); T v = see(*a, ep, t); vp_close3(v.position, pa + va * dt, 1e-6, "positions are the nodes' composed, moved since the epoch"); vp_cover("chain");
}
static const double AX[4][3] = {{0, 0, 1}, {0.6, 0, -0.8}, {0, -1, 0}, {0.48, 0.64, 0.6}};
ENTRY spin() {   // a spinning node carries its children around
    Root r; auto a = r.new_child().lock(), b = a->new_child().lock(); const double* q = AX[vp_choice("axis", 4)]; D3 u(q[0], q[1], q[2]); double w = vp_in("w", 0.01, 10); D3 om = u * w; bool body = vp_choice("body", 2); Rotation<double> R0 = turn(vp_choice("R0", 2) * 2 + 1); a->set_rotation(R0); bool before = vp_choice("before", 2); if (before) a->set_body_angular_velocity(units::RadiansPerSecond(1.), units::RadiansPerSecond(2.), units::RadiansPerSecond(3.));
    if (body) a->set_body_angular_velocity(units::RadiansPerSecond(om.x), units::RadiansPerSecond(om.y), units::RadiansPerSecond(om.z)); else if (vp_choice("units", 2)) a->set_angular_velocity(units::RadiansPerSecond(om.x), units::RadiansPerSecond(om.y), units::RadiansPerSecond(om.z)); else a->set_angular_velocity(om); D3 p = vec("p", 100); b->set_position(p); double dt = vp_in("dt", -10, 10); vp_assume(dt >= 0.01 || dt <= -0.01); T A = see(*a, 50, 50 + dt), B = see(*b, 50, 50 + dt); D3 W = body ? R0 * om : om, n = body ? R0 * u : u; double an = glm::length(om) * dt, c = std::cos(an), s = std::sin(an);
    auto rot = [&](D3 x) { return x * c + glm::cross(n, x) * s + n * (glm::dot(n, x) * (1 - c)); }; D3 x = R0 * p; vp_close3(B.position, rot(x), 1e-6, "spinning nodes turn about their axis since the epoch"); vp_close3(A.rotation * p, rot(x), 1e-6, "spinning nodes turn about their axis since the epoch"); vp_close3(A.angular_velocity, W, 1e-6, "spins are reported along the parent's axes"); vp_close3(B.angular_velocity, W, 1e-6, "children spin with their parent"); vp_close3(B.velocity, glm::cross(W, rot(x)), 1e-6, "children are carried around"); vp_cover("spin");
}
static void ephem() { for (int i = 0; i < 2; ++i) { bp[i] = vec(i ? "b1" : "b0", 1e3); bv[i] = vec(i ? "v1" : "v0", 10); const double* q = TQ[2 + i]; fm[i] = Mat3<double>(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8]); fw[i] = vec(i ? "w1" : "w0", 1); } }
ENTRY ephemeris() {   // SPICE states are absolute, whatever is above them
    ephem(); Root r; auto a = r.new_child().lock(); a->set_spice("B0", "F0"); double sa = vp_in("sa", 0.1, 10); a->set_scale(sa, sa, sa); auto b = a->new_child().lock(); b->set_scale(3, 3, 3); int kind = vp_choice("kind", 4); D3 p = vec("p", 100), v = vec("v", 1), om = D3(0.03, 0, -0.04); Rotation<double> Rl = turn(3); if (kind & 1) b->set_spice_origin("B1"); else { b->set_position(p); b->set_velocity(v); } if (kind & 2) b->set_spice_frame("F1"); else b->set_rotation(Rl); double t = vp_in("t", -100, 100); T A = see(*a, t, t), B = see(*b, t, t); Rotation<double> R0 = Rotation<double>::from_local_to_parent(fm[0]), R1 = Rotation<double>::from_local_to_parent(fm[1]); vp_close3(A.position, bp[0] + bv[0] * t, 1e-6, "bodies are where the ephemeris says"); vp_close3(A.velocity, bv[0], 1e-6, "bodies move as the ephemeris says"); same(A.rotation, R0, 1e-9, "frames turn as the ephemeris says"); vp_close3(A.angular_velocity, fw[0], 1e-9, "frames turn as the ephemeris says");
    if (kind == 3) vp_close3(B.scale, D3(3), 1e-9, "ephemeris bodies keep their own scale"); if (kind == 0) vp_close3(B.scale, D3(3 * sa), 1e-9, "scales multiply"); D3 x = R0 * (p * sa); if (kind & 1) { vp_close3(B.position, bp[1] + bv[1] * t, 1e-6, "bodies are where the ephemeris says, under any parent"); vp_close3(B.velocity, bv[1], 1e-6, "bodies move as the ephemeris says, under any parent"); } else { vp_close3(B.position, A.position + x, 1e-6, "fixed places follow their body"); vp_close3(B.velocity, A.velocity + R0 * (v * sa) + glm::cross(fw[0], x), 1e-6, "fixed places are carried around by their body"); }
    if (kind & 2) { same(B.rotation, R1, 1e-9, "frames turn as the ephemeris says, under any parent"); vp_close3(B.angular_velocity, fw[1], 1e-9, "frames turn as the ephemeris says, under any parent"); } else { same(B.rotation, R0 * Rl, 1e-9, "fixed rotations follow their body"); vp_close3(B.angular_velocity, fw[0], 1e-9, "fixed rotations turn with their body"); } vp_cover("ephemeris");
}
ENTRY light_time() {   // light seen now left earlier, by the distance it crossed
    static const double V[5] = {0, 3e4, -3e5, 3e6, -1}; double v = V[vp_choice("speed", 5)], x0 = vp_in("x0", 1e6, 1e12), t = vp_in("t", -10, 10); bool spice = vp_choice("spice", 2), child = vp_choice("child", 2), neg = vp_choice("behind", 2); double sg = neg ? -1 : 1; D3 ob = D3(0); Root r; auto a = r.new_child().lock(); bp[0] = D3(x0 * sg, 0, 0); bv[0] = D3(v * sg, 0, 0); fm[0] = Mat3<double>(1); fw[0] = D3(0); if (spice) a->set_spice("B0", "F0"); else { a->set_position(bp[0]); a->set_velocity(bv[0]); } auto b = a->new_child().lock(); T o; o.position = ob;
    T w = see(child ? *b : *a, 0, t, ObservationMode::GEOMETRIC_STATE, o), now = see(*a, 0, t); double lt = (x0 + v * t) / (C + v); vp_assume(x0 + v * t >= 1e5); vp_close3(now.position, D3((x0 + v * t) * sg, 0, 0), 1e-6, "the true state is that of now"); vp_close3(w.position, D3((x0 + v * (t - lt)) * sg, 0, 0), 1e-6, "bodies are seen where they were when the light left"); vp_close3(w.velocity, bv[0], 1e-6, "with the motion they had"); vp_cover("light");
}
ENTRY aberrated() {   // aberration turns the direction towards the motion and keeps the distance
    static const double P[3][3] = {{3e8, 0, 4e8}, {0, -5e7, 0}, {1e9, 2e9, 2e9}}; const double* q = P[vp_choice("p", 3)]; Root r; auto a = r.new_child().lock(); D3 po = vec("po", 1e6); D3 d(q[0], q[1], q[2]); a->set_position(po + d); Rotation<double> R = turn(3); a->set_rotation(R); T o; o.position = po; double vx = vp_in("vx", -1e5, 1e5), vy = vp_in("vy", -1e5, 1e5); static const double B[3][3] = {{1, 0, 0}, {0.6, 0.8, 0}, {0, 0, -1}}; const double* bq = B[vp_choice("vdir", 3)]; o.velocity = D3(bq[0], bq[1], bq[2]) * vx; (void)vy;
    T g = see(*a, 0, 0, ObservationMode::GEOMETRIC_STATE, o), w = see(*a, 0, 0, ObservationMode::ABERRATED_STATE, o), s = see(*a, 0, 0, ObservationMode::TRUE_STATE, o); double dist = glm::length(d); D3 u = d / dist; vp_close3(g.position, po + d, 1e-6, "bodies at rest are seen where they are"); vp_close3(s.position, po + d, 1e-6, "bodies at rest are seen where they are"); vp_close3((w.position - po) / dist, compute_aberrated_direction(u, o.velocity), 1e-9, "directions shift as the motion demands, at the same distance"); same(w.rotation, R, 1e-9, "aberration turns no body"); vp_cover("aberrated");
}
ENTRY approach() {   // aberration knows the observer's motion only, and light time the body's
    static const double P[3][3] = {{3e8, 0, 4e8}, {0, -5e7, 0}, {1e9, 2e9, 2e9}}; static const double V[3] = {3e4, -3e6, 1}; const double* q = P[vp_choice("p", 3)]; double v = V[vp_choice("speed", 3)], vo = vp_in("vo", -1e5, 1e5); D3 d(q[0], q[1], q[2]); double D = glm::length(d); D3 u = d / D; Root r; auto a = r.new_child().lock(); a->set_position(d); a->set_velocity(u * v); T o; static const double B[3][3] = {{1, 0, 0}, {0.6, 0.8, 0}, {0, 0, -1}}; const double* b = B[vp_choice("vdir", 3)]; o.velocity = D3(b[0], b[1], b[2]) * vo;
    T g = see(*a, 0, 0, ObservationMode::GEOMETRIC_STATE, o), w = see(*a, 0, 0, ObservationMode::ABERRATED_STATE, o); double s = D - v * D / (C + v); vp_close3(g.position, u * s, 1e-5, "bodies are seen where they were when the light left"); vp_close3(w.position / s, compute_aberrated_direction(u, o.velocity), 1e-9, "directions shift as the observer's motion demands, at the same distance"); vp_close3(w.velocity, u * v, 1e-6, "with the motion they had"); vp_cover("approach");
}
double far_away = 5e8; static double lateT; struct LP : PositionCallback { void evaluate(const Time& t, const Rotation<double>&, const D3&) override { lateT = t.et(); position = D3(3e8, 0, -4e8); velocity = D3(0); } };
struct LR : RotationCallback { void evaluate(const Time& t, const D3&, const D3&) override { lateT = t.et(); rotation = turn(1); angular_velocity = D3(0); } };
struct LS : StateCallback { void evaluate(const Time& t) override { lateT = t.et(); state.position = D3(3e8, 0, -4e8); } };
ENTRY late() {   // everything is as it was when the light left
    int k = vp_choice("kind", 4); bool geo = vp_choice("geo", 2); double t = vp_in("t", -100, 100), w = vp_in("w", 0.1, 10), ep = vp_in("epoch", -100, 100), lt = geo ? far_away / C : 0; vp_assume(t - lt - ep >= 0.01 || t - lt - ep <= -0.01); Root r; auto a = r.new_child().lock(); if (k == 0) a->set_custom_position_callback<LP>(); else if (k == 2) a->set_custom_state_callback<LS>(); else a->set_position(D3(3e8, 0, -4e8)); if (k == 1) a->set_custom_rotation_callback<LR>(); if (k == 3) { a->set_angular_velocity(D3(0, 0, w)); }
    T s = see(*a, ep, t, geo ? ObservationMode::GEOMETRIC_STATE : ObservationMode::TRUE_STATE); if (k < 3) vp_check_close(lateT, t - lt, 1e-6, "callbacks are asked for the moment the light left"); else { double an = w * (t - lt - ep); vp_close3(s.rotation * D3(1, 0, 0), D3(std::cos(an), std::sin(an), 0), 1e-6, "spinning bodies are seen turned as when the light left"); } vp_cover("late");
}
ENTRY settings() {   // the last setting decides
    Root r; auto a = r.new_child().lock(); bool sp = false, sr = false; bp[0] = D3(7, 8, 9); bv[0] = D3(1, 1, 1); fm[0] = Mat3<double>(0, 1, 0, 0, 0, 1, 1, 0, 0); fw[0] = D3(0); D3 p(0), v(0); int rt = 0; double sc = 1;
    for (int k = 0; k < 4; ++k) switch (vp_choice("set", 7)) { case 0: p = D3(1 + k, 2, 3); a->set_position(p); sp = false; break; case 1: a->set_rotation(turn(2)); rt = 2; sr = false; break; case 2: a->set_spice_origin("B0"); sp = true; break; case 3: a->set_spice_frame("F0"); sr = true; break; case 4: { T m; m.position = p = D3(-1 - k, 0, 0); m.velocity = v = D3(0, 1, 0); m.rotation = turn(3); rt = 3; sp = sr = false; m.scale = D3(2.0); sc = 2; a->set_manual_transform(m); break; } case 5: { D3 nv(k, 0, 1); bool t = vp_throws([&] { a->set_velocity(nv); }); vp_check(t == sp, "velocities are set only for manual positions"); if (!t) v = nv; break; } default: a->set_spice("B0", "F0"); sp = sr = true; }
    vp_check(vp_throws([&] { a->get_static_position(); }) == sp && vp_throws([&] { a->get_static_velocity(); }) == sp && vp_throws([&] { a->get_static_rotation(); }) == sr && vp_throws([&] { a->get_static_angular_velocity(); }) == sr && vp_throws([&] { a->get_spice_origin(); }) == !sp && vp_throws([&] { a->get_spice_frame(); }) == !sr, "each query answers in its own mode only"); if (!sp) { vp_check(a->get_static_position() == p && a->get_static_velocity() == v, "manual states are what was set"); } else vp_check(a->get_spice_origin() == "B0", "SPICE names are what was set"); if (sr) vp_check(a->get_spice_frame() == "F0", "SPICE names are what was set"); vp_check(a->get_static_scale() == D3(sc), "manual states are what was set");
    vp_check((a->get_position_mode() == TransformMode::SPICE_TRANSFORM) == sp && (a->get_rotation_mode() == TransformMode::SPICE_TRANSFORM) == sr, "the last setting decides the mode"); T w = see(*a, 0, 2); vp_close3(w.position, sp ? D3(9, 10, 11) : p + v * 2.0, 1e-9, "the last setting decides the state"); same(w.rotation, sr ? Rotation<double>::from_local_to_parent(fm[0]) : turn(rt), 1e-9, "the last setting decides the state"); vp_close3(w.scale, D3(sc), 1e-9, "scales are kept"); vp_cover("settings");
}
ENTRY rules() {   // SPICE nodes hang under SPICE nodes only
    Root r; auto a = r.new_child().lock(), b = a->new_child().lock(); fm[0] = Mat3<double>(1); bool ap = vp_choice("ap", 2), ar = vp_choice("ar", 2); if (ap) a->set_spice_origin("B0"); if (ar) a->set_spice_frame("F0"); int k = vp_choice("op", 3); bool t = vp_throws([&] { if (k == 0) b->set_spice_origin("B1"); else if (k == 1) b->set_spice_frame("F0"); else b->set_spice("B1", "F0"); }); vp_check(t == !((k == 1 || ap) && (k == 0 || ar)), "SPICE states need a SPICE parent"); bool bp_ = !t && k != 1, br = !t && k != 0; vp_check((b->get_position_mode() == TransformMode::SPICE_TRANSFORM) == bp_ && (b->get_rotation_mode() == TransformMode::SPICE_TRANSFORM) == br, "rejected settings change nothing");
    int m = vp_choice("then", 4); bool u = vp_throws([&] { if (m == 0) a->set_position(D3(1)); else if (m == 1) a->set_rotation(turn(1)); else if (m == 2) a->set_manual_transform(T{}); else a->set_position(units::Meter(1.), units::Meter(1.), units::Meter(1.)); }); vp_check(u == (m == 0 || m == 3 ? bp_ : m == 1 ? br : bp_ || br), "nodes with SPICE children keep their own SPICE state"); vp_check((a->get_position_mode() == TransformMode::SPICE_TRANSFORM) == (ap && (u || m == 1)), "rejected settings change nothing"); Root lone; N orphan(nullptr); vp_check(vp_throws([&] { see(orphan, 0, 0); }), "a state without a root is reported"); vp_cover("rules");
}
static double cb_t, cb_seen; struct Pos : PositionCallback { double k; Pos(double k) : k(k) {} void evaluate(const Time& t, const Rotation<double>& r, const D3& w) override { cb_t = t.et(); position = r * D3(k, 0, 0) + w; velocity = D3(t.et(), 0, 0); } };
struct Rot : RotationCallback { void evaluate(const Time& t, const D3& p, const D3& v) override { cb_t = t.et(); cb_seen = p.x + v.y; rotation = turn(2); angular_velocity = p; } };
struct Sta : StateCallback { void evaluate(const Time& t) override { cb_t = t.et(); state.position = D3(t.et(), 1, 2); state.velocity = D3(1, 0, 0); state.rotation = turn(3); state.angular_velocity = D3(0, t.et(), 0); } };
ENTRY callbacks() {
    Root r; auto a = r.new_child().lock(); double t = vp_in("t", -100, 100), k = vp_in("k", -100, 100); int c = vp_choice("kind", 4); a->set_scale(3, 3, 3); if (c != 2) a->set_rotation(turn(1)); if (c == 0) { a->set_angular_velocity(D3(0)); a->set_custom_position_callback<Pos>(k); T w = see(*a, 0, t); vp_close3(w.position, turn(1) * D3(k, 0, 0), 1e-9, "position callbacks get the rotation of the moment"); vp_close3(w.velocity, D3(t, 0, 0), 1e-9, "callbacks give position and velocity"); same(w.rotation, turn(1), 1e-9, "callbacks leave the rest alone"); vp_check(cb_t == t, "callbacks are asked for the moment"); }
    else if (c == 1) { a->set_position(D3(k, 1, 2)); a->set_velocity(D3(0, 5, 0)); a->set_custom_rotation_callback<Rot>(); T w = see(*a, 0, t); same(w.rotation, turn(2), 1e-9, "callbacks give the rotation"); vp_close3(w.angular_velocity, D3(k, 1 + 5 * t, 2), 1e-6, "rotation callbacks get the position of the moment"); vp_check_close(cb_seen, k + 5, 1e-9, "rotation callbacks get the position of the moment"); vp_check_close(w.position.y, 1 + 5 * t, 1e-9, "callbacks leave the rest alone"); vp_check(cb_t == t, "callbacks are asked for the moment"); }
    else if (c == 2) { a->set_custom_state_callback<Sta>(); T w = see(*a, 0, t); vp_close3(w.position, D3(t, 1, 2), 1e-9, "state callbacks give the whole state"); same(w.rotation, turn(3), 1e-9, "state callbacks give the whole state"); vp_close3(w.angular_velocity, D3(0, t, 0), 1e-9, "state callbacks give the whole state"); vp_check(cb_t == t, "callbacks are asked for the moment"); bool was = vp_choice("then", 2); if (was) { T m; m.position = D3(k, 0, 0); a->set_manual_transform(m); vp_close3(see(*a, 0, t).position, D3(k, 0, 0), 1e-9, "manual states replace callbacks"); return; } vp_close3(w.scale, D3(3), 1e-9, "callbacks leave the rest alone"); }
    else { a->set_custom_position_callback<Pos>(k); a->set_custom_rotation_callback<Rot>(); T w = see(*a, 0, t); vp_close3(w.position, D3(k, 0, 0), 1e-9, "position callbacks come before rotation callbacks"); same(w.rotation, turn(2), 1e-9, "callbacks give the rotation"); } vp_cover("callbacks");
}
