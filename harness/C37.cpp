// C37: models read from files
//! entry: meshes time=60
//! entry: placed time=60
//! entry: factors time=60
//! entry: textures time=60 opts=--bv2real=8
//! entry: packed time=60 opts=--bv2real=8
//! entry: colours time=90 opts=--bv2real=8,--enumcap=300
//! entry: shared time=60 opts=--bv2real=8
//! entry: several time=60
//! entry: change time=40
//! entry: wrong time=40
//! libs: -lfftw3f -lpng -lturbojpeg -ltiff -lcfitsio
//! assume: the model importing library is a stand-in which hands over meshes, nodes, materials and textures as the check describes them; the ray-tracing library is a stand-in
//! bound: up to 2 meshes of 4 vertices, 3 nodes of nested frames, 2 materials, textures of 3 by 5 texels; exact real arithmetic
#define CAMRES 2
#include "scene34.hpp"
#include <cstring>
struct FMat : aiMaterial { std::string name; bool has[4] = {}; float base[4], emi[3], rough, metal; std::vector<std::pair<aiTextureType, std::string>> tex; };
static aiScene* given; static std::string opened; static unsigned asked;
Assimp::Importer::Importer() : pimpl(nullptr) {} Assimp::Importer::~Importer() {} const char* Assimp::Importer::GetErrorString() const { return "broken"; }
const aiScene* Assimp::Importer::ReadFile(const char* f, unsigned fl) { opened = f; asked = fl; return given; }
aiScene::aiScene() { std::memset((void*)this, 0, sizeof *this); } aiScene::~aiScene() {} aiNode::aiNode() : mParent(nullptr), mNumChildren(0), mChildren(nullptr), mNumMeshes(0), mMeshes(nullptr), mMetaData(nullptr) {} aiNode::~aiNode() {}
aiMaterial::aiMaterial() : mProperties(nullptr), mNumProperties(0), mNumAllocated(0) {} aiMaterial::~aiMaterial() {} aiString aiMaterial::GetName() const { return aiString(((const FMat*)this)->name.c_str()); }
extern "C" {
aiReturn aiGetMaterialColor(const aiMaterial* m, const char* k, unsigned, unsigned, aiColor4D* o) { const FMat& q = *(const FMat*)m; if (!strcmp(k, "$clr.base") && q.has[0]) { *o = aiColor4D(q.base[0], q.base[1], q.base[2], q.base[3]); return aiReturn_SUCCESS; } if (!strcmp(k, "$clr.emissive") && q.has[3]) { *o = aiColor4D(q.emi[0], q.emi[1], q.emi[2], 1); return aiReturn_SUCCESS; } return aiReturn_FAILURE; }
aiReturn aiGetMaterialFloatArray(const aiMaterial* m, const char* k, unsigned, unsigned, ai_real* o, unsigned*) { const FMat& q = *(const FMat*)m; if (!strcmp(k, "$mat.roughnessFactor") && q.has[1]) { *o = q.rough; return aiReturn_SUCCESS; } if (!strcmp(k, "$mat.metallicFactor") && q.has[2]) { *o = q.metal; return aiReturn_SUCCESS; } return aiReturn_FAILURE; }
aiReturn aiGetMaterialProperty(const aiMaterial*, const char*, unsigned, unsigned, const aiMaterialProperty**) { return aiReturn_FAILURE; }
aiReturn aiGetMaterialIntegerArray(const aiMaterial*, const char*, unsigned, unsigned, int*, unsigned*) { return aiReturn_FAILURE; }
aiReturn aiGetMaterialString(const aiMaterial*, const char*, unsigned, unsigned, aiString*) { return aiReturn_FAILURE; }
unsigned aiGetMaterialTextureCount(const aiMaterial* m, aiTextureType t) { unsigned n = 0; for (auto& p : ((const FMat*)m)->tex) n += p.first == t; return n; }
aiReturn aiGetMaterialTexture(const aiMaterial* m, aiTextureType t, unsigned i, aiString* p, aiTextureMapping*, unsigned*, ai_real*, aiTextureOp*, aiTextureMapMode*, unsigned*) { for (auto& q : ((const FMat*)m)->tex) if (q.first == t && !i--) { p->Set(q.second.c_str()); return aiReturn_SUCCESS; } return aiReturn_FAILURE; }
}
struct FFile { aiScene* s = new aiScene; std::vector<aiMesh*> me; std::vector<aiMaterial*> ma; std::vector<aiTexture*> te;   // what the importer hands over
    aiMesh* mesh(unsigned mat = 0, unsigned nv = 3) { auto* m = new aiMesh; m->mMaterialIndex = mat; m->mNumVertices = nv; m->mVertices = new aiVector3D[nv]; m->mVertices[1].x = 1; m->mVertices[2].y = 1; m->mNormals = new aiVector3D[nv]; for (unsigned i = 0; i < nv; ++i) m->mNormals[i].z = 1; m->mNumFaces = 1; m->mFaces = new aiFace[3]; face(m, 0, {0, 1, 2}); me.push_back(m); return m; }
    static void face(aiMesh* m, int f, std::vector<unsigned> i) { m->mFaces[f].mNumIndices = (unsigned)i.size(); m->mFaces[f].mIndices = new unsigned[i.size() + 1]; for (size_t k = 0; k < i.size(); ++k) m->mFaces[f].mIndices[k] = i[k]; }
    FMat* mat(const char* n = "m") { auto* m = new FMat; m->name = n; ma.push_back(m); return m; }
    aiTexture* raw(const char* n, unsigned w = 3, unsigned h = 5) { auto* t = new aiTexture; t->mFilename.Set(n); t->mWidth = w; t->mHeight = h; t->pcData = new aiTexel[w * h + 1]; te.push_back(t); return t; }
    static aiNode* node(std::vector<unsigned> meshes, std::vector<aiNode*> ch = {}) { auto* n = new aiNode; n->mNumMeshes = (unsigned)meshes.size(); n->mMeshes = new unsigned[meshes.size() + 1]; for (size_t i = 0; i < meshes.size(); ++i) n->mMeshes[i] = meshes[i]; n->mNumChildren = (unsigned)ch.size(); n->mChildren = new aiNode*[ch.size() + 1]; for (size_t i = 0; i < ch.size(); ++i) { n->mChildren[i] = ch[i]; ch[i]->mParent = n; } return n; }
    void done(aiNode* root) { s->mRootNode = root; s->mNumMeshes = (unsigned)me.size(); s->mMeshes = me.data(); s->mNumMaterials = (unsigned)ma.size(); s->mMaterials = ma.data(); s->mNumTextures = (unsigned)te.size(); s->mTextures = te.data(); given = s; } };
static void save(const std::string& n, const std::vector<unsigned char>& d) { std::ofstream f(n, std::ios::binary); f.write((const char*)d.data(), (std::streamsize)d.size()); f.close(); }
static const std::string DIR = "/tmp/", MODEL = DIR + "vp_model.glb"; static ModelHandle<S> load(World& w, const char* name = "thing") { save(MODEL, {1}); return w.sc.load_model(MODEL, name); }
using Batch = std::vector<PrimitiveBatch<S>>; static Batch seen(World& w) { auto v = w.view(); struct P : Rend { using Rend::get_primitives; } R; return R.get_primitives(v); }
static const Mesh<S>& mesh(const Batch& b, size_t i = 0) { auto m = std::dynamic_pointer_cast<Mesh<S>>(b[i].primitive->geometry); vp_assume(m != nullptr); return *m; }
static aiVector3D av(F3 v) { return aiVector3D(v.x, v.y, v.z); }
static MaterialEval<S> eval(const Batch& b, float u, float v, size_t i = 0) { Interaction<S> x{}; x.uv = Vec2<float>(u, v); x.vertex_albedo = S{1}; x.normal_g = x.normal_s = F3(0, 0, 1); x.tangent = F3(1, 0, 0); x.bitangent = F3(0, 1, 0); x.wo = F3(0, 0, 1); return b[i].primitive->material->evaluate(x); }
static unsigned char byte(const char* n) { return (unsigned char)vp_bits(n, 8); }
ENTRY meshes() {   // vertices and triangles are those of the file
    init(); World w; FFile f; auto* m = f.mesh(0, 4); f.mat(); bool nrm = vp_choice("normals", 2), uv = vp_choice("uv", 2), col = vp_choice("colours", 2), tan = vp_choice("tangents", 2); F3 p[4], n[4], t[4], b[4], c[4]; Vec2<float> q[4]; if (!nrm) m->mNormals = nullptr; if (uv) m->mTextureCoords[0] = new aiVector3D[4]; if (col) m->mColors[0] = new aiColor4D[4]; if (tan) { m->mTangents = new aiVector3D[4]; m->mBitangents = new aiVector3D[4]; }
    for (int i = 0; i < 4; ++i) { p[i] = vp_vec3in<float>("position", -9, 9); m->mVertices[i] = av(p[i]); if (nrm) { n[i] = vp_vec3in<float>("normal", -1, 1); m->mNormals[i] = av(n[i]); } if (uv) { q[i] = vp_vec2in<float>("uv", -2, 2); m->mTextureCoords[0][i] = aiVector3D(q[i].x, q[i].y, 5); } if (col) { c[i] = vp_vec3in<float>("colour", 0, 1); m->mColors[0][i] = aiColor4D(c[i].x, c[i].y, c[i].z, 0.5f); } if (tan) { t[i] = vp_vec3in<float>("tangent", -1, 1); b[i] = vp_vec3in<float>("bitangent", -1, 1); m->mTangents[i] = av(t[i]); m->mBitangents[i] = av(b[i]); } }
    int odd = vp_choice("faces", 4); unsigned i0 = (unsigned)odd, i1 = (unsigned)(odd + 1) % 4; m->mNumFaces = 3; FFile::face(m, 0, {i0, 1, 2}); FFile::face(m, 1, odd == 0 ? std::vector<unsigned>{} : odd == 1 ? std::vector<unsigned>{3} : odd == 2 ? std::vector<unsigned>{2, 3} : std::vector<unsigned>{3, 0, 2}); FFile::face(m, 2, {3, 0, i1}); f.done(FFile::node({0})); auto h = load(w); w.put(h, D3(0, 0, 5)); Batch B = seen(w); vp_check(B.size() == 1 && B[0].instances.size() == 1, "every mesh of a model is seen"); const Mesh<S>& g = mesh(B); const auto& V = g.vertex_buffer(); const auto& X = g.index_buffer(); std::vector<unsigned> want = {i0, 1, 2}; if (odd == 3) want.insert(want.end(), {3, 0, 2}); want.insert(want.end(), {3, 0, i1}); vp_check(X.size() == want.size() && g.triangle_count() == want.size() / 3, "triangles are those of the file, and points and lines are left out"); if (X.size() != want.size()) return; for (size_t i = 0; i < want.size(); ++i) vp_check(X[i] == want[i], "triangles join the vertices the file says"); vp_check(V.size() == 4, "vertices are those of the file"); if (V.size() != 4) return;
    for (int i = 0; i < 4; ++i) { vp_close3(V[i].position, p[i], 1e-5, "vertices are where the file has them"); vp_close3(V[i].normal, nrm ? n[i] : F3(0, 1, 0), 1e-5, "normals are those of the file"); vp_check_close(V[i].uv.x, uv ? q[i].x : 0, 1e-5, "texture coordinates are those of the file"); vp_check_close(V[i].uv.y, uv ? 1 - q[i].y : 0, 1e-5, "texture coordinates count from the top of the image"); same(V[i].albedo, col ? S{c[i].x, c[i].y, c[i].z} : S{1}, 1e-5, "vertex colours are those of the file"); } vp_check(g.has_tangents() == tan, "tangents are those of the file"); if (tan && g.tangent_buffer().size() == 4) for (int i = 0; i < 4; ++i) { vp_close3(g.tangent_buffer()[i].tangent, t[i], 1e-5, "tangents are those of the file"); vp_close3(g.tangent_buffer()[i].bitangent, b[i], 1e-5, "tangents are those of the file"); } vp_check(opened == MODEL, "the file asked for is read"); vp_cover("meshes");
}
struct Aff { double m[3][4]; D3 operator()(D3 v) const { D3 r; for (int i = 0; i < 3; ++i) r[i] = m[i][0] * v.x + m[i][1] * v.y + m[i][2] * v.z + m[i][3]; return r; } aiMatrix4x4 ai() const { return aiMatrix4x4((float)m[0][0], (float)m[0][1], (float)m[0][2], (float)m[0][3], (float)m[1][0], (float)m[1][1], (float)m[1][2], (float)m[1][3], (float)m[2][0], (float)m[2][1], (float)m[2][2], (float)m[2][3], 0, 0, 0, 1); } };
static Aff frame(const char* n, int lo, int turns, int scales, bool tie = false) { static const double SC[5][3] = {{1, 1, 1}, {2, 2, 2}, {0.5, 2, 3}, {-1, 1, 1}, {2, 0.5, -3}}; int s = vp_choice("scale", scales), k = tie ? s % 3 : lo + vp_choice("turn", turns); D3 t = vp_vec3in<double>(n, -9, 9); Aff a; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) a.m[i][j] = TQ[k][3 * j + i] * SC[s][j]; a.m[i][3] = (double)(float)t[i]; } return a; }
ENTRY placed() {   // meshes are where the nodes of the file put them
    init(); World w; FFile f; f.mesh(); f.mat(); int deep = vp_choice("depth", 3); Aff a = deep == 0 ? frame("root", 0, 3, 5) : deep == 1 ? frame("root", 0, 3, 2) : frame("root", 1, 1, 2), b = deep == 0 ? Aff{} : deep == 1 ? frame("node", 0, 3, 5, true) : frame("node", 0, 3, 1), c = deep > 1 ? frame("leaf", 0, 3, 5, true) : Aff{}; auto* leaf = FFile::node({0}); auto* n = leaf; if (deep == 0) n->mTransformation = a.ai(); if (deep == 1) { leaf->mTransformation = b.ai(); n = FFile::node({}, {leaf}); n->mTransformation = a.ai(); } if (deep == 2) { leaf->mTransformation = c.ai(); n = FFile::node({}, {leaf}); n->mTransformation = b.ai(); n = FFile::node({}, {n}); n->mTransformation = a.ai(); } f.done(n); auto h = load(w); D3 at = D3(1, 2, vp_in("far", 1, 9)); w.put(h, at); Batch B = seen(w); vp_check(B.size() == 1 && B[0].instances.size() == 1, "meshes are seen once for each node that has them"); if (B.size() != 1 || B[0].instances.size() != 1) return;
    const auto& T = B[0].instances[0][0]; D3 p = vp_vec3in<double>("point", -9, 9), q = p; if (deep > 1) q = c(q); if (deep > 0) q = b(q); q = a(q) + at; F3 g = T.apply_to_point(F3(p)); vp_close3(d3(g), q, 1e-3, "meshes are where the nodes of the file put them"); vp_cover("placed");
}
ENTRY several() {   // every node's meshes, and every use of the model
    init(); World w; FFile f; f.mesh(0); f.mesh(1); f.mat("a"); f.mat("b"); int at[3]; auto sh = [](aiNode* n, float x) { n->mTransformation = aiMatrix4x4(1, 0, 0, x, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1); return n; }; float x[3]; std::vector<unsigned> ms[3]; for (int i = 0; i < 3; ++i) { at[i] = vp_choice("meshes of node", 4); if (at[i] & 1) ms[i].push_back(0); if (at[i] & 2) ms[i].push_back(1); x[i] = vp_inf("x", -9, 9); } bool nest = vp_choice("nested", 2); aiNode* l = sh(FFile::node(ms[2]), x[2]); f.done(nest ? sh(FFile::node(ms[0], {sh(FFile::node(ms[1], {l}), x[1])}), x[0]) : sh(FFile::node(ms[0], {sh(FFile::node(ms[1]), x[1]), l}), x[0])); auto h = load(w); int uses = 1 + vp_choice("uses", 2); w.put(h, D3(0, 0, 5)); if (uses == 2) w.put(h, D3(0, 0, 8)); Batch B = seen(w); float off[3] = {x[0], x[0] + x[1], nest ? x[0] + x[1] + x[2] : x[0] + x[2]};
    size_t total = 0; for (auto& b : B) total += b.instances.size(); size_t want = 0; for (int i = 0; i < 3; ++i) want += ms[i].size(); vp_check(total == want * (size_t)uses, "meshes are seen once for each node that has them and each use of the model"); for (int k = 0; k < 2; ++k) for (int i = 0; i < 3; ++i) if (at[i] & (1 << k)) for (int u = 0; u < uses; ++u) { bool found = false; for (auto& b : B) if (b.primitive->material->name() == (k ? "b" : "a")) for (auto& t : b.instances) if (std::abs(t[0].position.x - off[i]) < 1e-4f && std::abs(t[0].position.z - (u ? 8 : 5)) < 1e-3f) found = true; vp_check(found, "every node's meshes are seen, each with its own material"); } vp_check(w.sc.get_model("thing").get() == h.get(), "models are found by name"); vp_cover("several");
}
ENTRY factors() {   // materials have the factors of the file, or the default ones
    init(); World w; FFile f; f.mesh(1); f.mat("other"); FMat* m = f.mat(); int mask = vp_choice("given", 16); for (int i = 0; i < 4; ++i) m->has[i] = mask >> i & 1; for (float& v : m->base) v = vp_inf("base", 0, 1); for (float& v : m->emi) v = vp_inf("emission", 0, 9); m->rough = vp_inf("roughness", 0, 1); m->metal = vp_inf("metalness", 0, 1); f.done(FFile::node({0})); auto h = load(w); w.put(h, D3(0, 0, 5)); auto d = w.sc.new_material(w.sc.new_bsdf_cook_torrance()); w.put(w.sc.add_primitive(tri(w.sc), d), D3(0, 0, 7)); Batch B = seen(w); vp_check(B.size() == 2, "every mesh of a model is seen"); if (B.size() != 2) return; size_t k = B[0].primitive->material == d.get(); auto e = eval(B, 0.25f, 0.5f, k).params, o = eval(B, 0.25f, 0.5f, 1 - k).params;
    same(e.albedo, m->has[0] ? S{m->base[0], m->base[1], m->base[2]} : o.albedo, 1e-5, "base colours are those of the file"); vp_check_close(e.opacity, m->has[0] ? m->base[3] : o.opacity, 1e-5, "opacities are those of the file"); vp_check_close(e.roughness, m->has[1] ? m->rough : o.roughness, 1e-5, "roughnesses are those of the file"); vp_check_close(e.metallic, m->has[2] ? m->metal : o.metallic, 1e-5, "metalnesses are those of the file"); same(e.emission, m->has[3] ? S{m->emi[0], m->emi[1], m->emi[2]} : o.emission, 1e-5, "emissions are those of the file"); same(e.transmission, o.transmission, 0, "what the file does not say is as for new materials"); vp_cover("factors");
}
static void fill(aiTexture* t, unsigned char (*c)[4]) { for (int i = 0; i < 15; ++i) { t->pcData[i].r = t->pcData[i].g = t->pcData[i].b = 7; t->pcData[i].a = 9; } static const int at[2] = {1, 6}; for (int k = 0; k < 2; ++k) { for (int j = 0; j < 4; ++j) c[k][j] = byte("texel"); aiTexel& x = t->pcData[at[k]]; x.r = c[k][0]; x.g = c[k][1]; x.b = c[k][2]; x.a = c[k][3]; } }
static const float UV[2][2] = {{0.5f, 0}, {0, 0.5f}};   // the texels in the middle of the top row and of the left column
ENTRY textures() {   // textures inside the file
    init(); World w; FFile f; f.mesh(); FMat* m = f.mat(); unsigned char bc[2][4], em[2][4], no[2][4]; fill(f.raw("skin.png"), bc); fill(f.raw("glow.png"), em); fill(f.raw("bumps.png"), no); static const char* IDX[3] = {"*0", "*1", "*2"}; static const char* NAME[3] = {"skin.png", "glow.png", "bumps.png"}; bool byname = vp_choice("by name", 2), fac = vp_choice("factors", 2); auto N = [&](int i) { return std::string(byname ? NAME[i] : IDX[i]); }; m->tex = {{aiTextureType_BASE_COLOR, N(0)}, {aiTextureType_EMISSION_COLOR, N(1)}, {aiTextureType_NORMALS, N(2)}}; float a = 1, b = 1; m->has[0] = m->has[3] = fac; if (fac) { a = vp_inf("base", 0, 1); b = vp_inf("emission", 0, 9); for (float& v : m->base) v = a; for (float& v : m->emi) v = b; } static const unsigned char NO[4][3] = {{128, 128, 255}, {90, 128, 220}, {128, 200, 200}, {60, 140, 210}}; int l = vp_choice("bump", 4); for (int k = 0; k < 2; ++k) for (int j = 0; j < 3; ++j) { no[k][j] = NO[(l + k) % 4][j]; aiTexel& x = f.te[2]->pcData[k ? 6 : 1]; (j == 0 ? x.r : j == 1 ? x.g : x.b) = no[k][j]; } f.done(FFile::node({0})); auto h = load(w); w.put(h, D3(0, 0, 5)); Batch B = seen(w);
    int k = vp_choice("where", 2); auto ev = eval(B, UV[k][0], UV[k][1]); auto e = ev.params; auto F = [](unsigned char c) { return (float)c / 255.f; }; same(e.albedo, S{F(bc[k][0]) * a, F(bc[k][1]) * a, F(bc[k][2]) * a}, 1e-4, "base colours are those of the texture, times the factor"); vp_check_close(e.opacity, F(bc[k][3]) * a, 1e-4, "opacities are those of the texture, times the factor"); same(e.emission, S{F(em[k][0]) * b, F(em[k][1]) * b, F(em[k][2]) * b}, 1e-3, "emissions are those of the texture, times the factor"); F3 n(2 * F(no[k][0]) - 1, 2 * F(no[k][1]) - 1, 2 * F(no[k][2]) - 1); vp_close3(glm::cross(ev.isect.normal_s, n), F3(0), 1e-3, "normals are those of the texture"); vp_check(glm::dot(ev.isect.normal_s, n) > 0, "normals are those of the texture"); vp_cover("textures");
}
ENTRY packed() {   // roughness and metalness share one texture
    init(); World w; FFile f; f.mesh(0); f.mesh(1); unsigned char c[2][4], d[2][4]; fill(f.raw("rm.png"), c); fill(f.raw("other.png"), d); int slot = vp_choice("slot", 3); bool sharing = vp_choice("second material", 2), fac = vp_choice("factors", 2); float r = 1, q = 1; if (fac) { r = vp_inf("roughness", 0, 1); q = vp_inf("metalness", 0, 1); } for (int i = 0; i < 2; ++i) { FMat* m = f.mat(i ? "second" : "first"); std::string t = i && !sharing ? "*1" : "*0"; if (slot != 1) m->tex.push_back({aiTextureType_DIFFUSE_ROUGHNESS, t}); if (slot != 0) m->tex.push_back({aiTextureType_METALNESS, t}); m->has[1] = m->has[2] = fac; m->rough = r; m->metal = q; } f.done(FFile::node({0, 1})); auto h = load(w); w.put(h, D3(0, 0, 5)); Batch B = seen(w); vp_check(B.size() == 2, "every mesh of a model is seen"); if (B.size() != 2) return; int k = vp_choice("where", 2);
    for (size_t i = 0; i < 2; ++i) { bool second = B[i].primitive->material->name() == "second"; unsigned char* x = second && !sharing ? d[k] : c[k]; auto e = eval(B, UV[k][0], UV[k][1], i).params; vp_check_close(e.roughness, (float)x[1] / 255.f * r, 1e-4, "roughness is the green channel"); vp_check_close(e.metallic, (float)x[2] / 255.f * q, 1e-4, "metalness is the blue channel"); } vp_cover("packed");
}
static std::vector<unsigned char> tga(unsigned char (*c)[4], bool alpha) { std::vector<unsigned char> o(18, 0); o[2] = 2; o[12] = 3; o[14] = 5; o[16] = alpha ? 32 : 24; o[17] = (unsigned char)((alpha ? 8 : 0) | 32); for (int i = 0; i < 15; ++i) { int k = i == 1 ? 0 : i == 6 ? 1 : -1; for (int j : {2, 1, 0}) o.push_back(k < 0 ? 7 : c[k][j]); if (alpha) o.push_back(k < 0 ? 9 : c[k][3]); } return o; }
static float lin(unsigned char c) { return srgb_to_linear((float)c / 255.f); }
ENTRY colours() {   // image files inside the model's file or beside it
    init(); World w; FFile f; f.mesh(); FMat* m = f.mat(); bool alpha = vp_choice("alpha", 2); int where = vp_choice("kept", 4); unsigned char c[2][4]; static const unsigned char LV[4] = {0, 10, 100, 255}; int k = vp_choice("where", 2); for (int i = 0; i < 2; ++i) for (int j = 0; j < 4; ++j) c[i][j] = j == 3 ? byte("alpha") : 50; int lv = vp_choice("level", 4); for (int j = 0; j < 3; ++j) c[k][j] = LV[(lv + j) % 4]; auto bytes = tga(c, alpha); std::string name = "vp_skin.tga"; if (where == 0) { auto* t = f.raw("skin.tga", 1, 1); t->mHeight = 0; t->mWidth = (unsigned)bytes.size(); unsigned char* d = new unsigned char[bytes.size()]; std::memcpy(d, bytes.data(), bytes.size()); t->pcData = (aiTexel*)d; std::memcpy(t->achFormatHint, "tga", 4); name = "*0"; } else { if (where == 2) name = DIR + name; std::string disk = where == 2 ? name : DIR + name; if (where == 3) std::remove(disk.c_str()); else save(disk, bytes); }
    int use = vp_choice("use", 4); static const aiTextureType TY[4] = {aiTextureType_BASE_COLOR, aiTextureType_EMISSION_COLOR, aiTextureType_METALNESS, aiTextureType_NORMALS}; if (use == 3) { c[k][2] = 255; } m->tex = {{TY[use], name}}; f.done(FFile::node({0})); auto h = load(w); w.put(h, D3(0, 0, 5)); auto d = w.sc.new_material(w.sc.new_bsdf_cook_torrance()); w.put(w.sc.add_primitive(tri(w.sc), d), D3(0, 0, 7)); Batch B = seen(w); vp_check(B.size() == 2, "models are seen, with or without their textures"); if (B.size() != 2) return; size_t q = B[0].primitive->material == d.get(); auto ev = eval(B, UV[k][0], UV[k][1], q); auto e = ev.params, o = eval(B, UV[k][0], UV[k][1], 1 - q).params; S L{lin(c[k][0]), lin(c[k][1]), lin(c[k][2])}; bool there = where != 3;
    same(e.albedo, use == 0 && there ? L : o.albedo, 1e-4, "base colours are those of the texture, in linear light"); vp_check_close(e.opacity, use == 0 && there && alpha ? (float)c[k][3] / 255.f : o.opacity, 1e-4, "opacities are those of the texture"); same(e.emission, use == 1 && there ? L : o.emission, 1e-4, "emissions are those of the texture, in linear light"); vp_check_close(e.metallic, use == 2 && there ? (float)c[k][2] / 255.f : o.metallic, 1e-4, "metalness is the blue channel"); vp_check_close(e.roughness, use == 2 && there ? (float)c[k][1] / 255.f : o.roughness, 1e-4, "roughness is the green channel"); vp_cover("colours");
}
ENTRY shared() {   // textures used twice mean the same each time
    init(); World w; FFile f; f.mesh(0); f.mesh(1); unsigned char c[2][4]; fill(f.raw("both.png"), c); FMat *a = f.mat("first"), *b = f.mat("second"); int ua = vp_choice("first use", 3), ub = vp_choice("second use", 3); static const aiTextureType TY[3] = {aiTextureType_BASE_COLOR, aiTextureType_EMISSION_COLOR, aiTextureType_METALNESS}; a->tex = {{TY[ua], "*0"}}; b->tex = {{TY[ub], "*0"}}; f.done(FFile::node({0, 1})); auto h = load(w); w.put(h, D3(0, 0, 5)); Batch B = seen(w); vp_check(B.size() == 2, "every mesh of a model is seen"); if (B.size() != 2) return; int k = vp_choice("where", 2); auto F = [](unsigned char x) { return (float)x / 255.f; };
    for (size_t i = 0; i < 2; ++i) { int u = B[i].primitive->material->name() == "second" ? ub : ua; auto e = eval(B, UV[k][0], UV[k][1], i).params; S col{F(c[k][0]), F(c[k][1]), F(c[k][2])}; if (u == 0) { same(e.albedo, col, 1e-4, "textures used twice mean the same each time"); vp_check_close(e.opacity, F(c[k][3]), 1e-4, "textures used twice keep their opacities"); } if (u == 1) { same(e.emission, col, 1e-4, "textures used twice mean the same each time"); vp_check_close(e.opacity, 1, 1e-5, "emissions say nothing of opacities"); } if (u == 2) { vp_check_close(e.metallic, F(c[k][2]), 1e-4, "textures used twice mean the same each time"); vp_check_close(e.roughness, F(c[k][1]), 1e-4, "textures used twice mean the same each time"); } } vp_cover("shared");
}
ENTRY change() {   // what a model is made of can be found and changed
    init(); World w; FFile f; f.mesh(0); f.mesh(1); f.mat("first"); f.mat("second"); int nest = vp_choice("nested", 3); f.done(nest == 0 ? FFile::node({0, 1}) : nest == 1 ? FFile::node({0}, {FFile::node({1})}) : FFile::node({}, {FFile::node({}, {FFile::node({1})}), FFile::node({0})})); bool named = vp_choice("named", 2); auto h = load(w, named ? "thing" : ""); vp_check(w.sc.get_model(named ? "thing" : "vp_model").get() == h.get(), "models without a name are called after their file"); w.put(h, D3(0, 0, 5)); Batch B = seen(w); vp_check(B.size() == 2, "every mesh of a model is seen"); if (B.size() != 2) return; size_t k = (size_t)vp_choice("which", 2); auto m = h.get_material_by_id(B[k].primitive->material->id()); vp_check(m.get() == B[k].primitive->material, "materials of a model are found by their number"); float a = vp_inf("albedo", 0, 1); m.set_albedo_factor(S{a}); vp_check(vp_throws([&] { h.get_material_by_id(123456789); }), "numbers of other materials are refused");
    h.set_all_bsdfs(w.sc.new_bsdf_lambertian()); Batch A = seen(w); vp_check(A.size() == 2, "every mesh of a model is seen"); for (size_t i = 0; i < A.size(); ++i) { bool chosen = A[i].primitive->material == m.get(); auto e = eval(A, 0.5f, 0.5f, i); same(A[i].primitive->material->bsdf_eval(F3(0, 0, 1), F3(0, 0.6f, 0.8f), e), S{(chosen ? a : 1.f) * INV_PI<float>()}, 1e-4, "all materials of a model take the reflection they are given"); } vp_cover("change");
}
ENTRY wrong() {   // files that cannot be read leave no model behind
    init(); World w; FFile f; aiMesh* m = f.mesh(0); int what = vp_choice("fault", 8); if (what != 6) f.mat(); unsigned ix = (unsigned)vp_bits("index", 8); bool deep = vp_choice("deep", 2); if (what == 4) { vp_assume(ix >= 3); FFile::face(m, 0, {0, ix, 2}); } if (what == 5) { vp_assume(ix >= 1); } if (what == 6) m->mMaterialIndex = ix; unsigned at = what == 5 ? ix : 0; f.done(deep || what == 5 ? FFile::node({}, {FFile::node({at})}) : FFile::node({at})); if (what == 0) given = nullptr; if (what == 1) f.s->mFlags = AI_SCENE_FLAGS_INCOMPLETE; if (what == 2) f.s->mRootNode = nullptr; save(MODEL, {1}); if (what == 3) std::remove(MODEL.c_str()); auto go = [&] { w.sc.load_model(MODEL, "thing"); }; bool bad = vp_throws(go); vp_check(bad == (what < 6), what < 6 ? "files that cannot be read are refused" : "files that can be read are read"); bool none = vp_throws([&] { if (!w.sc.get_model("thing").get()) throw 1; }); vp_check(none == bad, "files that cannot be read leave no model behind");
    if (!bad) { w.put(w.sc.get_model("thing"), D3(0, 0, 5)); Batch B = seen(w); vp_check(B.size() == 1, "every mesh of a model is seen"); auto e = eval(B, 0.5f, 0.5f).params; vp_check(e.opacity == 1, "meshes without a material are opaque"); } vp_cover("wrong");
}
