//! entry: apply time=40
//! entry: compose time=60
//! entry: compose_uniform time=60
//! entry: assoc time=60
//! entry: inverse time=60
//! entry: inverse_kin time=60
//! entry: matrix time=40
//! entry: kinematics time=60
//! entry: embree time=40
//! entry: embree_rot time=60
//! entry: precision time=40
//! bound: up to three composed (of three, one arbitrary rotation and two rotations about coordinate axes by any angle) transforms; positions/velocities/points within [-10,10] per component, scales in [0.1,10]; rotations arbitrary; inverse and associativity under uniform scale (a non-uniform scale does not compose into a rotation-then-scale form)
//! assume: embree4/rtcore.h struct layout is the installed one
#include "vp.hpp"
#include "huira/core/transform.hpp"
using namespace huira;
using TF = Transform<double>; using V = Vec3<double>;
static TF mk(const char* n, bool uniform, bool kin) {
    TF t; t.position = vp_vec3in<double>(n, -10, 10); t.rotation = VP_ROT(double, n);
    if (uniform) t.scale = V(vp_in(n, 0.1, 10)); else t.scale = vp_vec3in<double>(n, 0.1, 10);
    if (kin) { t.velocity = vp_vec3in<double>(n, -10, 10); t.angular_velocity = vp_vec3in<double>(n, -10, 10); }
    return t;
}
ENTRY apply() {
    TF t = mk("t", false, true); V p = vp_vec3in<double>("p", -10, 10);
    auto m = t.rotation.local_to_parent_matrix(); V s = p * t.scale; V e = m[0] * s.x + m[1] * s.y + m[2] * s.z;
    vp_close3(t.apply_to_point(p), e + t.position, 1e-7, "points are scaled, rotated, then translated");
    vp_close3(t.apply_to_direction(p), e, 1e-7, "directions are scaled and rotated but not translated");
    vp_close3(t.apply_to_velocity(p), e + t.velocity, 1e-7, "velocities are scaled, rotated and added to the frame velocity");
    vp_close3(t.apply_to_angular_velocity(p), m[0] * p.x + m[1] * p.y + m[2] * p.z + t.angular_velocity, 1e-7, "angular velocities are rotated and added, never scaled");
    vp_close3(t.apply_to_point(V(0)), t.position, 1e-9, "the origin maps to the position");
    TF id; vp_close3(id.apply_to_point(p), p, 1e-12, "the default transform is the identity"); vp_close3((id * t).apply_to_point(p), t.apply_to_point(p), 1e-7, "identity on the left"); vp_close3((t * id).apply_to_point(p), t.apply_to_point(p), 1e-7, "identity on the right");
    vp_cover("apply");
}
ENTRY compose() {   // non-uniform parent scale is exact as long as the child does not rotate
    TF a = mk("a", false, true), b; b.position = vp_vec3in<double>("b", -10, 10); b.scale = vp_vec3in<double>("b", 0.1, 10); b.velocity = vp_vec3in<double>("b", -10, 10); V p = vp_vec3in<double>("p", -10, 10);
    vp_close3((a * b).apply_to_point(p), a.apply_to_point(b.apply_to_point(p)), 1e-5, "composition is application in sequence (non-uniform scale)");
    vp_close3((a * b).apply_to_direction(p), a.apply_to_direction(b.apply_to_direction(p)), 1e-5, "directions compose (non-uniform scale)"); vp_cover("compose");
}
ENTRY compose_uniform() {
    TF a = mk("a", true, true), b = mk("b", false, true); V p = vp_vec3in<double>("p", -10, 10); TF c = a * b;
    vp_close3(c.apply_to_point(p), a.apply_to_point(b.apply_to_point(p)), 1e-5, "composition is application in sequence");
    vp_close3(c.apply_to_direction(p), a.apply_to_direction(b.apply_to_direction(p)), 1e-5, "directions compose");
    vp_close3(c.position, a.apply_to_point(b.position), 1e-6, "the child's origin is mapped by the parent");
    vp_close3(c.velocity, a.velocity + a.apply_to_direction(b.velocity) + glm::cross(a.angular_velocity, a.apply_to_direction(b.position)), 1e-5, "velocity adds the transport term of the rotating parent");
    vp_close3(c.angular_velocity, a.apply_to_angular_velocity(b.angular_velocity), 1e-6, "angular velocity composes");
    vp_cover("compose_u");
}
static TF mk2(const char* n) { TF t; t.position = vp_vec3in<double>(n, -10, 10); t.scale = V(vp_in(n, 0.1, 10)); t.velocity = vp_vec3in<double>(n, -10, 10); t.angular_velocity = vp_vec3in<double>(n, -10, 10); return t; }
ENTRY assoc() {
    TF a = mk("a", true, true), b = mk2("b"), c = mk2("c"); int ax = (int)vp_choice("axis", 2);
    b.rotation = ax ? Rotation<double>::from_local_to_parent(Rotation<double>::local_to_parent_x(units::Radian(vp_in("tb", -7, 7)))) : Rotation<double>::from_local_to_parent(Rotation<double>::local_to_parent_z(units::Radian(vp_in("tb", -7, 7)))); c.rotation = ax ? Rotation<double>::from_local_to_parent(Rotation<double>::local_to_parent_y(units::Radian(vp_in("tc", -7, 7)))) : Rotation<double>::from_local_to_parent(Rotation<double>::local_to_parent_z(units::Radian(vp_in("tc", -7, 7))));
    TF l = (a * b) * c, r = a * (b * c);
    vp_close3(l.position, r.position, 1e-4, "composition is associative (position)"); vp_close3(l.velocity, r.velocity, 1e-3, "composition is associative (velocity)"); vp_close3(l.angular_velocity, r.angular_velocity, 1e-5, "composition is associative (angular velocity)"); vp_close3(l.scale, r.scale, 1e-6, "composition is associative (scale)");
    V p = vp_vec3in<double>("p", -10, 10); vp_close3(l.rotation * p, r.rotation * p, 1e-6, "composition is associative (rotation)"); vp_cover("assoc");
}
ENTRY inverse() {
    TF t = mk("t", true, true), i = t.inverse(); V p = vp_vec3in<double>("p", -10, 10);
    vp_close3(i.apply_to_point(t.apply_to_point(p)), p, 1e-6, "the inverse undoes the transform on points");
    vp_close3(t.apply_to_point(i.apply_to_point(p)), p, 1e-6, "the transform undoes its inverse on points");
    vp_close3(i.apply_to_direction(t.apply_to_direction(p)), p, 1e-6, "the inverse undoes the transform on directions");
    vp_close3(i.scale * t.scale, V(1), 1e-9, "inverse scale is reciprocal");
    TF n = t * i; vp_close3(n.position, V(0), 1e-6, "a transform times its inverse has no offset"); vp_close3(n.rotation * p, p, 1e-7, "a transform times its inverse has no rotation"); vp_close3(n.scale, V(1), 1e-9, "a transform times its inverse has unit scale");
    vp_cover("inverse");
}
ENTRY inverse_kin() {
    TF t = mk("t", true, true), i = t.inverse(); TF n = t * i, m = i * t;
    vp_close3(n.velocity, V(0), 1e-5, "a transform times its inverse is at rest"); vp_close3(n.angular_velocity, V(0), 1e-6, "a transform times its inverse does not spin");
    vp_close3(m.velocity, V(0), 1e-5, "an inverse times its transform is at rest"); vp_close3(m.angular_velocity, V(0), 1e-6, "an inverse times its transform does not spin"); vp_cover("inverse_k");
}
ENTRY matrix() {
    TF t = mk("t", false, false); auto m = t.to_matrix(); V p = vp_vec3in<double>("p", -10, 10);
    auto h = m * Vec4<double>(p, 1.0); V e = t.apply_to_point(p); vp_close3(V(h), e, 1e-6, "the matrix maps points like the transform"); vp_check_close(h.w, 1, 1e-12, "the matrix is affine");
    auto d = m * Vec4<double>(p, 0.0); vp_close3(V(d), t.apply_to_direction(p), 1e-6, "the matrix maps directions like the transform"); vp_check_close(d.w, 0, 1e-12, "the matrix keeps directions"); vp_cover("matrix");
}
ENTRY kinematics() {
    TF t = mk("t", false, true); V p = vp_vec3in<double>("p", -10, 10), q = vp_vec3in<double>("q", -10, 10);
    vp_close3(t.velocity_of_point(p), t.velocity + glm::cross(t.angular_velocity, p - t.position), 1e-6, "rigid-body velocity of a point");
    vp_close3(t.velocity_of_local_point(q), t.velocity_of_point(t.apply_to_point(q)), 1e-5, "a local point moves like its image");
    vp_close3(t.velocity_of_local_point(V(0)), t.velocity, 1e-6, "the origin moves with the frame velocity");
    V vp = t.velocity_of_point(p), vq = t.velocity_of_point(q); vp_check_close(glm::dot(vp - vq, p - q), 0, 1e-4, "rigid motion keeps distances"); vp_cover("kin");
}
template <class T> static void embree_chk(const TF& t, double tol) {
    auto d = t.to_embree(); vp_check_close(d.scale_x, t.scale.x, tol, "embree scale x"); vp_check_close(d.scale_y, t.scale.y, tol, "embree scale y"); vp_check_close(d.scale_z, t.scale.z, tol, "embree scale z");
    vp_check_close(d.translation_x, t.position.x, tol, "embree translation x"); vp_check_close(d.translation_y, t.position.y, tol, "embree translation y"); vp_check_close(d.translation_z, t.position.z, tol, "embree translation z");
    vp_check(d.skew_xy == 0 && d.skew_xz == 0 && d.skew_yz == 0 && d.shift_x == 0 && d.shift_y == 0 && d.shift_z == 0, "embree pose has no shear");
    double w = d.quaternion_r, x = d.quaternion_i, y = d.quaternion_j, z = d.quaternion_k; auto m = t.rotation.local_to_parent_matrix();
    vp_check_close(w * w + x * x + y * y + z * z, 1, 1e-5, "embree quaternion is unit");
    double e[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y + w * z), 2 * (x * z - w * y)}, {2 * (x * y - w * z), 1 - 2 * (x * x + z * z), 2 * (y * z + w * x)}, {2 * (x * z + w * y), 2 * (y * z - w * x), 1 - 2 * (x * x + y * y)}};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vp_check_close(e[i][j], m[i][j], 1e-5, "embree quaternion is the local-to-parent rotation");
}
ENTRY embree() { TF t; t.position = vp_vec3in<double>("t", -10, 10); t.scale = vp_vec3in<double>("s", 0.1, 10); embree_chk<double>(t, 1e-5); vp_cover("embree"); }
ENTRY embree_rot() {
    TF t; V k = vp_unit3<double>("k"); double a = vp_in("a", -7, 7); t.rotation = Rotation<double>::from_local_to_parent(k, units::Radian(a)); embree_chk<double>(t, 1e-5); vp_cover("embree_rot");
}
ENTRY precision() {
    TF t = mk("t", false, true); auto f = static_cast<Transform<float>>(t); auto g = static_cast<Transform<double>>(f);
    vp_close3(g.position, t.position, 1e-4, "precision cast keeps position"); vp_close3(g.scale, t.scale, 1e-4, "precision cast keeps scale"); vp_close3(g.velocity, t.velocity, 1e-4, "precision cast keeps velocity"); vp_close3(g.angular_velocity, t.angular_velocity, 1e-4, "precision cast keeps angular velocity");
    V p = vp_vec3in<double>("p", -10, 10); vp_close3(g.rotation * p, t.rotation * p, 1e-4, "precision cast keeps rotation"); vp_cover("prec");
}
