// C29: time scales, intervals and ephemerides
//! entry: scales time=40
//! entry: interval time=40
//! entry: words time=30
//! entry: states time=40
//! entry: frames time=60
//! entry: orbit time=40
//! entry: nadir time=60
//! assume: CSPICE is not installed: its functions are modelled (constant offsets between uniform time scales, one leap second, any states and frames, errors at any call)
//! bound: any epoch within 1e10 s of 2000, in exact real arithmetic; up to four samples of an interval
#include "spicemodel/spice_model.hpp"
#include "vp.hpp"
#include "huira/util/logger.hpp"
#include <vector>
#include "huira/core/time.hpp"
#include "huira/core/spice.hpp"
#include "huira/core/interval.hpp"
#include "huira/scene/state_callbacks/keplerian_orbit.hpp"
#include "huira/scene/state_callbacks/nadir_point.hpp"
using namespace huira; using D3 = Vec3<double>; using units::Second;
static double when(const char* n) { return vp_in(n, -1e10, 1e10); }
static const TimeScale TS[4] = {TimeScale::UTC, TimeScale::TAI, TimeScale::TT, TimeScale::TDB};
static void init() { spice::lsk_loaded.store(true); }
ENTRY scales() {
    init(); sm::eps = vp_in("eps", -0.002, 0.002); sm::leap_at = vp_in("leap", -1e9, 1e9); double et = when("et"); Time t = Time::from_et(et); vp_check(t.et() == et && t.ephemeris_time() == et && Time::from_ephemeris_time(et) == t, "ephemeris time is kept"); TimeScale s = TS[vp_choice("scale", 4)]; double jd = t.to_julian_date(s), off = s == TimeScale::TDB ? 0 : s == TimeScale::TT ? sm::eps : 32.184 + sm::eps;
    double L = sm::leap_at + 32.184 + sm::eps + 32; if (s == TimeScale::UTC) { vp_assume(et < L || et >= L + 1); off += et >= L + 1 ? 33 : 32; } double sec = et - off; vp_check_close(jd, 2451545.0 + sec / 86400, 1e-8, "Julian dates count days of 86400 s from 2000 in their scale"); vp_check_close(t.to_modified_julian_date(s), jd - 2400000.5, 1e-8, "modified Julian dates are offset"); vp_check_close(t.julian_years_since_j2000(s), sec / (365.25 * 86400), 1e-10, "Julian years are 365.25 days");
    vp_check_close(Time::from_julian_date(jd, s).et(), et, 1e-3, "Julian dates convert back"); vp_check_close(Time::from_modified_julian_date(t.to_modified_julian_date(s), s).et(), et, 1e-3, "modified Julian dates convert back"); vp_check(sm::bad == 0, "time systems are named as SPICE knows them");
    double e2 = when("other"), d = vp_in("delta", -1e6, 1e6); Time u = Time::from_et(e2); vp_check((t < u) == (et < e2) && (t <= u) == (et <= e2) && (t > u) == (et > e2) && (t >= u) == (et >= e2) && (t == u) == (et == e2) && (t != u) == (et != e2), "times order like their epochs"); vp_check_close((t - u).to_si(), et - e2, 1e-5, "differences are seconds"); vp_check_close((t + Second(d)).et(), et + d, 1e-5, "seconds add"); vp_check_close((u + (t - u)).et(), et, 1e-5, "differences add back"); vp_cover("scales");
}
ENTRY interval() {
    double a = when("a"), b = when("b"), d = vp_in("d", -1e6, 1e6); Interval c = Interval::from_centered(Time::from_et(a), Second(d)), s = Interval::from_start(Time::from_et(a), Second(d)), f = Interval::from_bounds(Time::from_et(a), Time::from_et(b)); vp_check_close(c.center().et(), a, 1e-6, "a centred interval is centred"); vp_check_close(c.duration().to_si(), d, 1e-6, "intervals last as long as asked"); vp_check_close(s.duration().to_si(), d, 1e-6, "intervals last as long as asked"); vp_check(s.start.et() == a && f.start.et() == a && f.end.et() == b, "intervals start and end where asked"); vp_check_close(f.duration().to_si(), b - a, 1e-6, "intervals last as long as asked"); vp_check_close(f.center().et(), (a + b) / 2, 1e-6, "the centre is halfway");
    int n = vp_choice("n", 6); std::vector<Time> t; bool bad = vp_throws([&] { t = f.samples((size_t)n); }); vp_check(bad == (n == 0), "no samples cannot be asked for"); if (bad) return; vp_check((int)t.size() == n, "as many samples as asked"); if (n == 1) vp_check_close(t[0].et(), (a + b) / 2, 1e-6, "one sample is at the centre"); else for (int i = 0; i < n; ++i) vp_check_close(t[(size_t)i].et(), a + (b - a) * i / (n - 1), 1e-6, "samples are even from start to end"); vp_cover("interval");
}
ENTRY words() {   // texts and errors
    init(); sm::asked_et = when("et"); const char* W[3] = {"2025-01-01T00:00:00", "x", ""}; const char* w = W[vp_choice("text", 3)]; Time t(w); vp_check(sm::asked[0] == w && t.et() == sm::asked_et, "texts are read as given"); std::string i = t.to_iso_8601(); vp_check(i.back() == 'Z' && i.find("::UTC") != std::string::npos, "ISO texts are in UTC"); static const char* F[4] = {"YYYY ::UTC", "YYYY", "", "YYYY UTC"}; int k = vp_choice("format", 4); std::string o = t.to_utc_string(F[k]); vp_check(o == (k == 0 ? "YYYY ::UTC" : k == 1 ? "YYYY ::UTC" : k == 2 ? " ::UTC" : "YYYY UTC ::UTC"), "texts are in UTC unless they say so already");
    int which = vp_choice("call", 6); sm::failing = true; bool threw = vp_throws([&] { switch (which) { case 0: Time("x"); break; case 1: t.to_iso_8601(); break; case 2: t.to_julian_date(TimeScale::TT); break; case 3: t.to_julian_date(TimeScale::UTC); break; case 4: spice::spkezr<double>("A", t, "J2000", "NONE", "SSB"); break; default: spice::sxform<double>("A", "B", t); } }); vp_check(threw, "failures of the toolkit are reported"); sm::failing = false; vp_check(!vp_throws([&] { t.to_julian_date(TimeScale::TT); }), "one failure does not spoil the next call"); sm::failed = true; vp_check(!vp_throws([&] { t.to_julian_date(TimeScale::TT); }), "stale failures are not blamed on the next call"); vp_cover("words");
}
ENTRY states() {
    double et = when("et"); for (int k = 0; k < 6; ++k) sm::state[k] = vp_in("s", -1e9, 1e9); sm::lt = vp_in("lt", 0, 1e5); auto [p, v, lt] = spice::spkezr<double>("MOON", Time::from_et(et), "J2000", "NONE", "SSB"); for (int k = 0; k < 3; ++k) { vp_check_close(p[k], sm::state[k] * 1000, 1e-3, "positions are in metres"); vp_check_close(v[k], sm::state[k + 3] * 1000, 1e-3, "velocities are in metres per second"); } vp_check(lt == sm::lt && sm::asked_et == et && sm::asked[0] == "MOON" && sm::asked[1] == "J2000" && sm::asked[2] == "NONE" && sm::asked[3] == "SSB", "the toolkit is asked what was meant"); vp_cover("states");
}
ENTRY frames() {   // frames and their motion
    Mat3<double> m = vp_rotmat<double>("m"); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) sm::M[i][j] = m[j][i]; D3 w = vp_vec3in<double>("w", -1, 1); for (int k = 0; k < 3; ++k) sm::W[k] = w[k]; double et = when("et"); D3 x = vp_vec3in<double>("x", -10, 10), y = m * x; /* seen from the TO frame */ auto r = spice::pxform<double>("J2000", "MOON_PA", Time::from_et(et)); vp_check(sm::asked[0] == "J2000" && sm::asked[1] == "MOON_PA" && sm::asked_et == et, "the toolkit is asked what was meant"); vp_close3(r * y, x, 1e-9, "the rotation takes the frame's axes to the reference");
    auto [q, a] = spice::sxform<double>("J2000", "MOON_PA", Time::from_et(et)); vp_close3(q * y, x, 1e-9, "the rotation takes the frame's axes to the reference"); vp_close3(a, w, 1e-9, "the angular velocity is along the reference axes"); vp_cover("frames");
}
ENTRY orbit() {
    double a = vp_in("a", 1e6, 1e12), e = vp_in("e", 0, 0.99), mu = vp_in("mu", 1, 1e6), et = when("et"), ep = when("epoch"), an[4]; for (int k = 0; k < 4; ++k) an[k] = vp_in("angle", 0, 6); for (int k = 0; k < 6; ++k) sm::state[k] = vp_in("s", -1e9, 1e9); KeplerianOrbitCallback c(units::Meter(a), e, units::Radian(an[0]), units::Radian(an[1]), units::Radian(an[2]), units::Radian(an[3]), Time::from_et(ep), mu); c.evaluate(Time::from_et(et), Rotation<double>{}, D3(0));
    vp_check_close(sm::elements[0] * 1000, a * (1 - e), 1e-3, "orbits reach their periapsis"); vp_check(sm::elements[1] == e && sm::elements[6] == ep && sm::elements[7] == mu && sm::asked_et == et, "orbits have the elements given"); for (int k = 0; k < 4; ++k) vp_check_close(sm::elements[2 + k], an[k], 1e-12, "orbits have the elements given"); for (int k = 0; k < 3; ++k) { vp_check_close(c.position[k], sm::state[k] * 1000, 1e-3, "positions are in metres"); vp_check_close(c.velocity[k], sm::state[3 + k] * 1000, 1e-3, "velocities are in metres per second"); } vp_cover("orbit");
}
ENTRY nadir() {
    static const double V[4][3] = {{1, 0, 0}, {0, -3, 4}, {0, 0, 2}, {-2, 1, 2}}; const double* q = V[vp_choice("v", 4)]; D3 p, v(q[0], q[1], q[2]); double r = vp_in("r", 1, 1e9); p = vp_unit3<double>("u"); double c = glm::dot(p, v) / glm::length(v); vp_assume(c <= 0.9 && c >= -0.9); ZUpYForwardCallback up; ZDownYForwardCallback dn; up.evaluate(Time::from_et(0), p * r, v); dn.evaluate(Time::from_et(0), p * r, v); bool d = vp_choice("down", 2); Rotation<double> R = d ? dn.rotation : up.rotation; D3 x = R * D3(1, 0, 0), y = R * D3(0, 1, 0), z = R * D3(0, 0, 1); vp_close3(z, d ? -p : p, 1e-5, "the third axis points along or against the position");
    vp_check_close(glm::dot(x, x), 1, 1e-5, "the axes are orthonormal"); vp_check_close(glm::dot(x, z), 0, 1e-5, "the axes are orthonormal"); vp_check_close(glm::dot(x, v), 0, 1e-5, "the second axis is in the plane of motion"); vp_close3(glm::cross(z, x), y, 1e-5, "the axes are right-handed"); vp_check(glm::dot(y, v) > 0, "the second axis points forward"); vp_cover("nadir");
}
