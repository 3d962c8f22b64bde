//! entry: axis_angle time=40
//! entry: axis_angle_f time=40
//! entry: axis_any_length time=60
//! entry: parent_local time=40
//! entry: quat_apply time=40
//! entry: quat_roundtrip time=60
//! entry: euler time=90
//! entry: euler_bad time=20
//! entry: compose time=60
//! entry: basis time=40
//! entry: matrix_any time=60
//! entry: matrix_special time=40
//! entry: elementary time=40
//! bound: one construction / one composition of two arbitrary rotations per path; Euler sequences: all 27 three-letter sequences over x,y,z in lower/upper case and digits; no loops bounded
//! assume: logging is a no-op
#include "vp.hpp"
#include "huira/core/rotation.hpp"
using namespace huira;
template <class T> static Vec3<T> rodrigues(const Vec3<T>& k, T s, T c, const Vec3<T>& v) { return v * c + glm::cross(k, v) * s + k * (glm::dot(k, v) * (T(1) - c)); }
template <class T> static void check_ortho(const Rotation<T>& r, double tol, const char* l) {
    Vec3<T> x = r.x_axis(), y = r.y_axis(), z = r.z_axis();
    vp_check_close(glm::dot(x, x), 1, tol, l); vp_check_close(glm::dot(y, y), 1, tol, l); vp_check_close(glm::dot(z, z), 1, tol, l);
    vp_check_close(glm::dot(x, y), 0, tol, l); vp_check_close(glm::dot(x, z), 0, tol, l); vp_check_close(glm::dot(y, z), 0, tol, l);
    vp_check_close(glm::dot(glm::cross(x, y), z), 1, tol, l);
}
template <class T> static void check_mat(const Mat3<T>& a, const Mat3<T>& b, double tol, const char* l) { for (int i = 0; i < 3; ++i) vp_close3(a[i], b[i], tol, l); }
template <class T> static void axis_angle_t(double tol) {
    Vec3<T> k = vp_unit3<T>("k"); T ang = T(vp_in("ang", -7, 7)); Vec3<T> v = vp_vec3in<T>("v", -10, 10);
    auto r = Rotation<T>::from_local_to_parent(k, units::Radian(double(ang)));
    check_ortho(r, tol, "axis-angle rotation is proper orthonormal");
    Vec3<T> e = rodrigues<T>(k, std::sin(ang), std::cos(ang), v);
    vp_close3(r * v, e, tol, "axis-angle rotation turns vectors by the angle about the axis");
    check_mat(r.local_to_parent_matrix(), glm::transpose(r.parent_to_local_matrix()), tol, "parent matrix is the transpose");
    vp_close3(r.local_to_parent_matrix() * v, e, tol, "local_to_parent_matrix agrees with application");
    vp_close3(r.inverse() * (r * v), v, tol, "inverse undoes the rotation");
    vp_close3(r.x_axis(), r * Vec3<T>(1, 0, 0), tol, "x_axis is the image of x"); vp_close3(r.y_axis(), r * Vec3<T>(0, 1, 0), tol, "y_axis is the image of y"); vp_close3(r.z_axis(), r * Vec3<T>(0, 0, 1), tol, "z_axis is the image of z");
    vp_cover("axis_angle");
}
ENTRY axis_angle() { axis_angle_t<double>(1e-9); }
ENTRY axis_angle_f() { axis_angle_t<float>(1e-4); }
ENTRY axis_any_length() {
    Vec3<double> k = vp_unit3<double>("k"); double len = vp_in("len", 0, 1000), ang = vp_in("ang", -7, 7); Vec3<double> v = vp_vec3in<double>("v", -10, 10);
    auto r = Rotation<double>::from_local_to_parent(k * len, units::Radian(ang));
    check_ortho(r, 1e-9, "any axis length gives a proper rotation");
    if (len > 1e-3) { vp_close3(r * v, rodrigues<double>(k, std::sin(ang), std::cos(ang), v), 1e-9, "axis length does not matter"); vp_cover("long"); }
    if (len == 0) { vp_close3(r * v, v, 1e-12, "zero axis gives the identity"); vp_cover("zero"); }
}
ENTRY parent_local() {
    Vec3<double> k = vp_unit3<double>("k"); double ang = vp_in("ang", -7, 7);
    auto r = Rotation<double>::from_local_to_parent(k, units::Radian(ang)), p = Rotation<double>::from_parent_to_local(k, units::Radian(ang));
    check_mat((r * p).local_to_parent_matrix(), Mat3<double>(1), 1e-9, "parent_to_local axis-angle is the inverse");
    auto m = Rotation<double>::from_parent_to_local(r.parent_to_local_matrix());
    check_mat(m.local_to_parent_matrix(), r.local_to_parent_matrix(), 1e-9, "from_parent_to_local(matrix) inverts parent_to_local_matrix");
    auto m2 = Rotation<double>::from_local_to_parent(r.local_to_parent_matrix());
    check_mat(m2.local_to_parent_matrix(), r.local_to_parent_matrix(), 1e-9, "from_local_to_parent(matrix) inverts local_to_parent_matrix");
    auto f = static_cast<Rotation<float>>(r); auto fm = f.local_to_parent_matrix(); auto rm = r.local_to_parent_matrix();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vp_check_close(double(fm[i][j]), rm[i][j], 1e-5, "precision cast keeps the rotation");
    vp_cover("pl");
}
static Quaternion<double> unit_quat() {
    double w = vp_real("qw"), x = vp_real("qx"), y = vp_real("qy"), z = vp_real("qz");
    if (vp_symbolic()) vp_assume_exact(w * w + x * x + y * y + z * z == 1.0); else { double l = std::sqrt(w * w + x * x + y * y + z * z); if (!(l > 1e-9)) { w = l = 1; } w /= l; x /= l; y /= l; z /= l; }
    return Quaternion<double>(w, x, y, z);
}
ENTRY quat_apply() {
    auto q = unit_quat(); Vec3<double> v = vp_vec3in<double>("v", -10, 10); Vec3<double> u(q.x, q.y, q.z);
    Vec3<double> e = u * (2 * glm::dot(u, v)) + v * (q.w * q.w - glm::dot(u, u)) + glm::cross(u, v) * (2 * q.w);   // q v q*
    auto r = Rotation<double>::from_local_to_parent(q);
    check_ortho(r, 1e-9, "quaternion rotation is proper orthonormal");
    vp_close3(r * v, e, 1e-9, "quaternion rotation is q v q*");
    auto s = Rotation<double>::from_local_to_parent(ShusterQuaternion<double>(q.x, q.y, q.z, q.w));
    vp_close3(s * v, e, 1e-9, "Shuster (x,y,z,w) is the same rotation");
    auto p = Rotation<double>::from_parent_to_local(q); vp_close3(p * e, v, 1e-9, "parent_to_local quaternion is the inverse");
    auto ps = Rotation<double>::from_parent_to_local(ShusterQuaternion<double>(q.x, q.y, q.z, q.w)); vp_close3(ps * e, v, 1e-9, "parent_to_local Shuster is the inverse");
    vp_cover("quat");
}
ENTRY quat_roundtrip() {
    Vec3<double> k = vp_unit3<double>("k"); double ang = vp_in("ang", -7, 7);
    auto r = Rotation<double>::from_local_to_parent(k, units::Radian(ang));
    auto q = r.local_to_parent_quaternion(); auto sq = r.local_to_parent_shuster_quaternion();
    vp_check_close(q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z, 1, 1e-9, "quaternion is unit");
    vp_check_close(sq.w, q.w, 1e-12, "Shuster w last"); vp_check_close(sq.x, q.x, 1e-12, "Shuster x first"); vp_check_close(sq.y, q.y, 1e-12, "Shuster y second"); vp_check_close(sq.z, q.z, 1e-12, "Shuster z third");
    check_mat(Mat3<double>(glm::mat3_cast(q)), r.local_to_parent_matrix(), 1e-9, "quaternion represents the same rotation");
    auto pq = r.parent_to_local_quaternion(); vp_check_close(pq.w, q.w, 1e-9, "parent quaternion is the conjugate (w)"); vp_check_close(pq.x, -q.x, 1e-9, "parent quaternion is the conjugate (x)"); vp_check_close(pq.y, -q.y, 1e-9, "parent quaternion is the conjugate (y)"); vp_check_close(pq.z, -q.z, 1e-9, "parent quaternion is the conjugate (z)");
    auto ps = r.parent_to_local_shuster_quaternion(); vp_check_close(ps.w, pq.w, 1e-9, "parent Shuster w last"); vp_check_close(ps.x, pq.x, 1e-9, "parent Shuster x first"); vp_check_close(ps.y, pq.y, 1e-9, "parent Shuster y"); vp_check_close(ps.z, pq.z, 1e-9, "parent Shuster z");
    vp_cover("quat_rt");
}
static Vec3<double> el(int ax, double s, double c, const Vec3<double>& v) { // elementary active rotation, written out
    if (ax == 0) return {v.x, c * v.y - s * v.z, s * v.y + c * v.z};
    if (ax == 1) return {c * v.x + s * v.z, v.y, -s * v.x + c * v.z};
    return {c * v.x - s * v.y, s * v.x + c * v.y, v.z};
}
ENTRY euler() {
    const char* names[4] = {"xyz", "XYZ", "123", "xYz"}; 
    int nm = (int)vp_choice("names", 3); int a[3]; std::string seq = "   ";
    for (int i = 0; i < 3; ++i) { a[i] = (int)vp_choice("axis", 3); seq[i] = names[nm][a[i]]; }
    double t[3]; for (int i = 0; i < 3; ++i) t[i] = vp_in("t", -7, 7);
    Vec3<double> v = vp_vec3in<double>("v", -10, 10);
    double s[3], c[3]; for (int i = 0; i < 3; ++i) { s[i] = std::sin(t[i]); c[i] = std::cos(t[i]); }
    auto e = Rotation<double>::extrinsic_euler_angles(units::Radian(t[0]), units::Radian(t[1]), units::Radian(t[2]), seq);
    auto n = Rotation<double>::intrinsic_euler_angles(units::Radian(t[0]), units::Radian(t[1]), units::Radian(t[2]), seq);
    Vec3<double> ev = v, nv = v;
    for (int i = 0; i < 3; ++i) ev = el(a[i], s[i], c[i], ev);         // about fixed axes, first angle first
    for (int i = 2; i >= 0; --i) nv = el(a[i], s[i], c[i], nv);        // about moving axes
    vp_close3(e * v, ev, 1e-7, "extrinsic Euler angles rotate about the fixed axes in order");
    vp_close3(n * v, nv, 1e-7, "intrinsic Euler angles rotate about the moving axes in order");
    vp_cover("euler");
}
ENTRY euler_bad() {
    char b[4]; int n = (int)vp_choice("len", 5); bool ok = n == 3; std::string s;
    if (n == 3) { for (int i = 0; i < 3; ++i) { char ch = "xyzw0a"[vp_choice("ch", 6)]; s += ch; if (!(ch == 'x' || ch == 'y' || ch == 'z')) ok = false; } } else s = std::string(n, 'x');
    (void)b; units::Radian t(0.3);
    bool te = vp_throws([&] { Rotation<double>::extrinsic_euler_angles(t, t, t, s); }), ti = vp_throws([&] { Rotation<double>::intrinsic_euler_angles(t, t, t, s); });
    vp_check(te == !ok, "extrinsic rejects exactly the malformed sequences"); vp_check(ti == !ok, "intrinsic rejects exactly the malformed sequences"); vp_cover("bad");
}
ENTRY compose() {
    Vec3<double> v = vp_vec3in<double>("v", -10, 10); auto r = VP_ROT(double, "r"), s = VP_ROT(double, "s");
    auto rs = r * s; vp_close3(rs * v, r * (s * v), 1e-9, "composition applies right operand first");
    check_ortho(rs, 1e-9, "composition stays proper orthonormal");
    auto t = r; t *= s; vp_close3(t * v, rs * v, 1e-9, "in-place composition agrees");
    auto i1 = rs.inverse(); vp_close3(i1 * (r * (s * v)), v, 1e-9, "inverse of a composition undoes it");
    vp_cover("compose");
}
ENTRY basis() {
    Vec3<double> k = vp_unit3<double>("k"); double a = vp_in("a", -7, 7);
    auto r = Rotation<double>::from_local_to_parent(k, units::Radian(a));
    auto b = Rotation<double>::from_basis_vectors(r.x_axis(), r.y_axis(), r.z_axis());
    check_mat(b.local_to_parent_matrix(), r.local_to_parent_matrix(), 1e-9, "basis vectors become the axes");
    vp_check(vp_throws([&] { Rotation<double>::from_basis_vectors(r.y_axis(), r.x_axis(), r.z_axis()); }), "left-handed bases are rejected");
    vp_check(vp_throws([&] { Rotation<double>::from_basis_vectors(r.x_axis(), r.x_axis(), r.z_axis()); }), "degenerate bases are rejected");
    vp_cover("basis");
}
ENTRY matrix_any() {
    // a matrix that is accepted is turned into a proper rotation close to it; others are rejected
    Mat3<double> m(1); double s = vp_in("s", 0.2, 3), h = vp_in("h", -1, 1), s2 = vp_in("s2", 0.2, 3), h2 = vp_in("h2", -1, 1), h3 = vp_in("h3", -1, 1), s3 = vp_in("s3", -3, 3);
    m[0] = Vec3<double>(s, 0, 0); m[1] = Vec3<double>(h, s2, 0); m[2] = Vec3<double>(h2, h3, s3);
    double det = s * s2 * s3; bool threw = false; Rotation<double> r;
    try { r = Rotation<double>::from_local_to_parent(m); } catch (...) { threw = true; }
    if (threw) { vp_check(!(det > 0.9995 && det < 1.0005), "matrices with unit determinant are accepted"); vp_cover("rejected"); }
    else { vp_check(det > 0.99 && det < 1.01, "matrices whose determinant is not 1 are rejected"); check_ortho(r, 1e-7, "accepted matrices become proper orthonormal"); vp_cover("accepted"); }
}
ENTRY matrix_special() {
    // NaN / infinite entries never yield a rotation
    Mat3<double> m(1); int i = (int)vp_choice("i", 3), j = (int)vp_choice("j", 3); double x = vp_real_any("x"); bool bad = !(x - x == 0); vp_assume(bad);
    m[i][j] = x; vp_check(vp_throws([&] { Rotation<double>::from_local_to_parent(m); }), "non-finite matrices are rejected"); vp_cover("special");
}
ENTRY elementary() {
    double t = vp_in("t", -7, 7); Vec3<double> v = vp_vec3in<double>("v", -10, 10); double s = std::sin(t), c = std::cos(t); units::Radian a(t); using R = Rotation<double>;
    vp_close3(R::local_to_parent_x(a) * v, el(0, s, c, v), 1e-9, "x elementary"); vp_close3(R::local_to_parent_y(a) * v, el(1, s, c, v), 1e-9, "y elementary"); vp_close3(R::local_to_parent_z(a) * v, el(2, s, c, v), 1e-9, "z elementary");
    vp_close3(R::parent_to_local_x(a) * v, el(0, -s, c, v), 1e-9, "x elementary parent to local"); vp_close3(R::parent_to_local_y(a) * v, el(1, -s, c, v), 1e-9, "y elementary parent to local"); vp_close3(R::parent_to_local_z(a) * v, el(2, -s, c, v), 1e-9, "z elementary parent to local");
    vp_cover("elementary");
}
