// C31: names, handles and deletion
//! entry: names time=60
//! entry: query time=60
//! entry: kinds time=40
//! entry: instances time=60
//! entry: frames time=60
//! entry: geometry time=60
//! libs: -lassimp -lfftw3f -lpng -lturbojpeg -ltiff -lcfitsio
//! assume: the ray-tracing library is a stand-in; hashes of texts depend on their length only (any hash is allowed)
//! bound: three operations on names of one or three characters (any bytes), graphs of two frames and three instances
#include "vp.hpp"
#include "embree.hpp"
#include "spicemodel/spice_model.hpp"
#include "huira/huira.hpp"
using namespace huira; using S = RGB; using D3 = Vec3<double>; using L = LightHandle<S>;
static std::string sym(const char* n) { int k = vp_choice("length", 2) ? 3 : 1; char b[4] = {}; vp_bytes(b, (size_t)k, n); return std::string(b, (size_t)k); }

static L lamp(Scene<S>& sc, const std::string& n) { return sc.new_sphere_light(units::Meter(1.), units::Watt(1.), n); }
struct Obj { std::string name; L h; Light<S>* p; bool live; };
static bool taken(const std::vector<Obj>& v, const std::string& n) { for (auto& o : v) if (o.live && o.name == n) return true; return false; }
static std::string uniq(const std::vector<Obj>& v, const std::string& n) { if (!taken(v, n)) return n; for (int k = 1;; ++k) { std::string m = n + "_" + std::to_string(k); if (!taken(v, m)) return m; } }
static Light<S>* find(Scene<S>& sc, const std::string& n) { Light<S>* p = nullptr; if (vp_throws([&] { p = sc.get_light(n).get().get(); })) return nullptr; return p; }
static void step(Scene<S>& sc, std::vector<Obj>& v, int op) {
    if (op == 0) { std::string n = sym("name"), u = uniq(v, n); L h = lamp(sc, n); v.push_back({u, h, h.get().get(), true}); }
    else if (op == 1) { if (!v[0].live) { vp_check(vp_throws([&] { sc.set_name(v[0].h, "x"); }), "deleted objects cannot be renamed"); return; } std::string n = sym("name"); std::string u = n == v[0].name ? n : uniq(v, n); sc.set_name(v[0].h, n); v[0].name = u; }
    else { if (!v[0].live) { vp_check(vp_throws([&] { sc.delete_light(v[0].h); }), "objects are deleted once"); return; } sc.delete_light(v[0].h); v[0].live = false; }
}
ENTRY names() {   // sequences of additions, renamings and deletions
    spice::lsk_loaded.store(true); Scene<S> sc; std::vector<Obj> v; step(sc, v, 0); for (int k = 0; k < 2; ++k) step(sc, v, vp_choice("op", 3));
    for (auto& o : v) { vp_check(o.h.valid() == o.live, "handles are valid while the object is in the scene"); if (o.live) { vp_check(o.h.name() == o.name, "names are as given, made unique by a number"); vp_check(find(sc, o.name) == o.p, "objects are found by their names"); } else { vp_check(vp_throws([&] { o.h.name(); }) && vp_throws([&] { o.h.get(); }), "handles of deleted objects are refused"); if (!taken(v, o.name)) vp_check(!find(sc, o.name), "deleted objects are not found"); } } vp_cover("names");
}
ENTRY query() {   // what a name finds
    spice::lsk_loaded.store(true); Scene<S> sc; std::vector<Obj> v; step(sc, v, 0); step(sc, v, 0); step(sc, v, 1 + vp_choice("op", 2)); std::string q = sym("query"); Light<S>*w = nullptr; for (auto& o : v) if (o.live && o.name == q) w = o.p; vp_check(find(sc, q) == w, "a name finds the object that has it now, or nothing"); vp_cover("query");
}
ENTRY kinds() {   // kinds have their own names; unnamed objects get one
    spice::lsk_loaded.store(true); Scene<S> sc; std::string n = sym("name"); auto e = sc.add_ellipsoid(units::Meter(1.), units::Meter(1.), units::Meter(1.), n); auto p = sc.add_primitive(e, n), p2 = sc.add_primitive(e, n); L l = lamp(sc, n), a = lamp(sc, ""), b = lamp(sc, ""); auto u = sc.new_unresolved_object(units::WattsPerMeterSquared(1.), n);
    vp_check(e.name() == n && p.name() == n && l.name() == n && u.name() == n, "kinds of objects do not share names"); vp_check(p2.name() == n + "_1", "names are as given, made unique by a number"); vp_check(a.name() != b.name() && !a.name().empty() && find(sc, a.name()) == a.get().get() && find(sc, b.name()) == b.get().get(), "unnamed objects get unique names"); vp_check(a.id() != b.id() && a.id() != l.id() && p.id() != p2.id(), "identifiers are unique");
    GeometryHandle<S> g = sc.get_geometry(n); vp_check(g.get().get() == e.get().get() && sc.get_primitive(n).get().get() == p.get().get() && sc.get_unresolved_object(n).get().get() == u.get().get(), "objects are found by their names"); vp_check(g.get<Ellipsoid<S>>().get() == g.get().get() && vp_throws([&] { g.get<Mesh<S>>(); }), "handles give the type they hold only"); std::string m = sym("new"); sc.set_name(g, m); sc.set_name(p2, m); sc.set_name(u, m); vp_check(e.name() == m && u.name() == m && (m == n ? p2.name() == m + "_1" || p2.name() == m + "_2" : p2.name() == m), "objects are renamed"); vp_cover("kinds");
}
static int kids(const FrameHandle<S>& f) { return (int)f.get()->get_children().size(); }
ENTRY instances() {   // deleting an asset removes what shows it, and nothing else
    spice::lsk_loaded.store(true); Scene<S> sc; L a = lamp(sc, "a"), b = lamp(sc, "b"); auto f = sc.root.new_subframe(), g = f.new_subframe(); FrameHandle<S>*fr[2] = {&f, &g}; std::vector<InstanceHandle<S>> in; bool isA[3]; int at[3]; for (int k = 0; k < 3; ++k) { isA[k] = vp_choice("light", 2); at[k] = vp_choice("frame", 2); in.push_back(fr[at[k]]->new_instance(isA[k] ? a : b)); } int one = vp_choice("one", 4); bool gone[3] = {}; if (one < 3) { fr[at[one]]->delete_instance(in[(size_t)one]); gone[one] = true; vp_check(vp_throws([&] { fr[at[one]]->delete_instance(in[(size_t)one]); }), "instances are deleted once"); }
    bool del = vp_choice("delete", 2); if (del) { sc.delete_light(a); for (int k = 0; k < 3; ++k) if (isA[k]) gone[k] = true; vp_check(!a.valid() && b.valid() && !find(sc, "a") && find(sc, "b") == b.get().get(), "deleted assets are gone, others stay"); vp_check(vp_throws([&] { sc.delete_light(a); }) && vp_throws([&] { f.new_instance(a); }), "deleted assets cannot be used"); } int n[2] = {1, 0}; for (int k = 0; k < 3; ++k) { vp_check(in[(size_t)k].valid() == !gone[k], "what shows a deleted asset is gone, the rest stays"); if (!gone[k]) n[at[k]]++; } vp_check(kids(f) == n[0] && kids(g) == n[1], "what shows a deleted asset is gone, the rest stays"); vp_cover("instances");
}
ENTRY frames() {   // deleting a frame removes all below it
    spice::lsk_loaded.store(true); Scene<S> sc; L a = lamp(sc, "a"); auto f = sc.root.new_subframe(), g = f.new_subframe(), h = sc.root.new_subframe(); auto i = g.new_instance(a), j = h.new_instance(a); vp_check(g.get_parent().get().get() == f.get().get() && i.get_parent().get().get() == g.get().get(), "nodes know their parents"); int k = vp_choice("which", 3); vp_check(vp_throws([&] { if (k == 0) h.delete_subframe(g); else if (k == 1) f.delete_subframe(h); else f.delete_instance(i); }), "only a parent deletes its children"); vp_check(g.valid() && h.valid() && i.valid(), "refused deletions change nothing");
    bool top = vp_choice("top", 2); if (top) sc.root.delete_subframe(f); else f.delete_subframe(g); vp_check(f.valid() == !top && !g.valid() && !i.valid() && h.valid() && j.valid() && a.valid(), "everything below a deleted frame is gone, and nothing else"); vp_check(vp_throws([&] { g.new_subframe(); }), "deleted frames cannot be used"); vp_check(kids(h) == 1 && sc.root.get()->get_children().size() == (top ? 1u : 2u), "everything below a deleted frame is gone, and nothing else"); sc.delete_light(a); vp_check(!j.valid() && kids(h) == 0, "what shows a deleted asset is gone, the rest stays"); vp_cover("frames");
}
ENTRY geometry() {   // geometry, primitives and their instances
    spice::lsk_loaded.store(true); Scene<S> sc; auto e = sc.add_ellipsoid(units::Meter(1.), units::Meter(1.), units::Meter(1.), "e"), e2 = sc.add_ellipsoid(units::Meter(2.), units::Meter(2.), units::Meter(2.), "f"); std::vector<PrimitiveHandle<S>> p; bool first[3]; std::vector<InstanceHandle<S>> in; auto f = sc.root.new_subframe(); for (int k = 0; k < 3; ++k) { first[k] = vp_choice("of", 2); p.push_back(sc.add_primitive(first[k] ? e : e2, "p")); in.push_back(k == 2 ? f.new_instance(p.back()) : sc.root.new_instance(p.back())); } int how = vp_choice("how", 3); auto un = sc.new_unresolved_object(units::WattsPerMeterSquared(1.), "u"); auto iu = f.new_instance(un);
    if (how == 0) sc.delete_geometry(e); else if (how == 1) sc.delete_primitive(p[0]); else { sc.delete_unresolved_object(un); } vp_check(iu.valid() == (how != 2) && un.valid() == (how != 2), "what shows a deleted asset is gone, the rest stays"); for (int k = 0; k < 3; ++k) { bool g = how == 0 ? first[k] : how == 1 && k == 0; vp_check(p[(size_t)k].valid() == !g && in[(size_t)k].valid() == !g, "what is made of a deleted asset is gone, the rest stays"); } vp_check(e.valid() == (how != 0) && e2.valid(), "deleted assets are gone, others stay"); if (how == 0) vp_check(vp_throws([&] { sc.add_primitive(e); }) && vp_throws([&] { sc.get_geometry("e"); }), "deleted assets cannot be used"); vp_cover("geometry");
}
