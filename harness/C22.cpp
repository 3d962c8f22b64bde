// C22: meshes give the ray tracer their triangles and interpolate their data over them
//! entry: interpolate time=40
//! entry: tracer_view time=20
//! entry: accepted time=30
//! bound: meshes of up to 4 vertices and 2 triangles (any indices), any finite attributes; RGB and 2-bin spectra; exact real arithmetic
#include "vp.hpp"
#include "embree.hpp"
#include "huira/util/logger.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/geometry/mesh.hpp"
using namespace huira; using F3 = Vec3<float>; using F2 = Vec2<float>; using S2 = UniformSpectralBins<2, 400, 800>;
template <class S> struct M : Mesh<S> { template <class... A> M(A... a) : Mesh<S>(a...) { this->set_device(std::make_shared<EmbreeDevice>()); } EScene* scene() { return es(this->blas()); } };
template <class S> static VertexBuffer<S> verts(int n) { VertexBuffer<S> v(n); for (auto& x : v) { x.position = vp_vec3in<float>("p", -100, 100); x.normal = vp_vec3in<float>("n", -1, 1); x.uv = vp_vec2in<float>("uv", -2, 2); for (size_t i = 0; i < S::size(); ++i) x.albedo[i] = vp_inf("albedo", 0, 1); } return v; }
static TangentBuffer tangs(int n) { TangentBuffer t(n); for (auto& x : t) { x.tangent = vp_vec3in<float>("t", -1, 1); x.bitangent = vp_vec3in<float>("b", -1, 1); } return t; }
static IndexBuffer indices(int n, int c) { IndexBuffer b(n); for (auto& x : b) { x = (uint32_t)vp_bits("index", 32); vp_assume(x < (uint32_t)c); }; return b; }
static F3 rd3(const char* p) { F3 f; memcpy(&f, p, 12); return f; }
template <class S> static void interp() {
    bool tg = vp_bool("tangents"); auto v = verts<S>(4); auto t = tangs(tg ? 4 : 0); IndexBuffer b{0, 1, 2, 0, 0, 0}; for (int i = 3; i < 6; ++i) b[i] = (uint32_t)((i + vp_choice("shift", 4)) % 4); M<S> m = vp_bool("ctor") || tg ? M<S>(b, v, t) : M<S>(b, v);
    HitRecord h; h.prim_id = (unsigned)vp_choice("prim", 2); h.u = vp_inf("u", 0, 1); h.v = vp_inf("v", 0, 1); vp_assume(h.u + h.v <= 1); h.t = vp_inf("t", 0, 10); float w = 1 - h.u - h.v; Interaction<S> i; i.tangent = F3(7); i.bitangent = F3(8);
    static_cast<const Geometry<S>&>(m).compute_surface_interaction(h, i); const Vertex<S>&A = v[b[3 * h.prim_id]], &B = v[b[3 * h.prim_id + 1]], &C = v[b[3 * h.prim_id + 2]];
    vp_close3(i.position, A.position * w + B.position * h.u + C.position * h.v, 1e-4, "the position is that of the hit"); vp_close3(i.normal_s, A.normal * w + B.normal * h.u + C.normal * h.v, 1e-4, "normals are interpolated");
    F2 uv = A.uv * w + B.uv * h.u + C.uv * h.v, cu = static_cast<const Geometry<S>&>(m).compute_uv(h); vp_check_close(i.uv.x, uv.x, 1e-4, "texture coordinates are interpolated"); vp_check_close(i.uv.y, uv.y, 1e-4, "texture coordinates are interpolated"); vp_check_close(cu.x, uv.x, 1e-4, "texture lookups agree"); vp_check_close(cu.y, uv.y, 1e-4, "texture lookups agree");
    for (size_t k = 0; k < S::size(); ++k) vp_check_close(i.vertex_albedo[k], A.albedo[k] * w + B.albedo[k] * h.u + C.albedo[k] * h.v, 1e-4, "vertex colours are interpolated");
    if (tg) { auto& X = t[b[3 * h.prim_id]]; auto& Y = t[b[3 * h.prim_id + 1]]; auto& Z = t[b[3 * h.prim_id + 2]]; vp_close3(i.tangent, X.tangent * w + Y.tangent * h.u + Z.tangent * h.v, 1e-4, "tangents are interpolated"); vp_close3(i.bitangent, X.bitangent * w + Y.bitangent * h.u + Z.bitangent * h.v, 1e-4, "bitangents are interpolated"); }
    else { vp_close3(i.tangent, F3(0), 0, "no tangents, no frame"); vp_close3(i.bitangent, F3(0), 0, "no tangents, no frame"); }
    vp_cover("interpolated");
}
ENTRY interpolate() { if (vp_bool("rgb")) interp<RGB>(); else interp<S2>(); }
ENTRY tracer_view() {   // what the ray tracer is given are the mesh's own triangles
    int n = 3 + vp_choice("vertices", 2), k = 1 + vp_choice("triangles", 2); auto v = verts<RGB>(n); IndexBuffer b = indices(3 * k + vp_choice("spare", 3), n); M<RGB> m(b, v); EScene* s = m.scene(); vp_check(s->committed && s->geoms.size() == 1, "one geometry is committed"); EGeom* g = s->geoms[0]; vp_check(g->committed && g->type == (int)RTC_GEOMETRY_TYPE_TRIANGLE && g->bufs.size() == 2, "a triangle geometry with two buffers"); vp_check(m.scene() == s, "built once");
    for (EBuf& x : g->bufs) if (x.type == (int)RTC_BUFFER_TYPE_VERTEX) { vp_check(x.format == (int)RTC_FORMAT_FLOAT3 && x.count == (size_t)n, "all vertices"); for (int i = 0; i < n; ++i) { F3 p = rd3(x.data + i * x.stride); vp_check(p.x == v[i].position.x && p.y == v[i].position.y && p.z == v[i].position.z, "vertex positions"); } }
        else { vp_check(x.type == (int)RTC_BUFFER_TYPE_INDEX && x.format == (int)RTC_FORMAT_UINT3 && x.count == (size_t)k, "all whole triangles"); for (int i = 0; i < k; ++i) for (int j = 0; j < 3; ++j) { uint32_t q; memcpy(&q, x.data + i * x.stride + 4 * j, 4); vp_check(q == b[3 * i + j], "vertex indices"); } }
    M<RGB> o = std::move(m); vp_check(o.scene() == s && o.vertex_buffer().size() == (size_t)n && g->bufs[0].data == (const char*)o.vertex_buffer().data() && g->bufs[1].data == (const char*)o.index_buffer().data(), "a moved mesh keeps its buffers in place"); vp_cover("seen");
}
ENTRY accepted() {   // exactly the consistent buffers are accepted
    int n = vp_choice("vertices", 4), k = 3 * vp_choice("triangles", 3), t = vp_choice("tangents", 5); IndexBuffer b(k); bool in = true; for (auto& x : b) { x = vp_bits("index", 32); in = in && x < (uint32_t)n; } VertexBuffer<RGB> v(n); bool three = vp_bool("three"); bool ok = true; size_t cnt = 0;
    try { if (three) { Mesh<RGB> m(b, v, TangentBuffer(t)); cnt = m.index_count(); vp_check(m.vertex_count() == (size_t)n && m.triangle_count() == (size_t)k / 3 && m.has_tangents() == (t > 0) && m.tangent_buffer().size() == (size_t)t && m.index_buffer() == b, "buffers are kept"); } else { Mesh<RGB> m(b, v); cnt = m.index_count(); vp_check(m.vertex_count() == (size_t)n && !m.has_tangents() && m.index_buffer() == b, "buffers are kept"); } } catch (const std::exception&) { ok = false; }
    vp_check(ok == (in && (!three || t == 0 || t == n)), "exactly consistent buffers are accepted"); if (ok) vp_check(cnt == (size_t)k, "all indices are kept"); vp_cover("tried");
}
