// In-memory model of the standard streams the code under test uses (string and file streams over a
// file system that holds what the run itself wrote). Objects keep libstdc++'s layout where inline
// header code reads it: get area of the stream buffer, gcount, stream state and buffer pointer.
#include <cstddef>
#include <cstring>
#include <string>
#include <fstream>
#include <sstream>
namespace {
struct File { char* name; char* data; size_t size, cap; File* next; bool cut; };
long limit = -1; bool strict;   // vp_disk: sizes files can have (the rest is lost, which shows when they are closed), and only existing folders can be written to
File* files = nullptr;
struct Buf { void** vptr; char *beg, *cur, *end, *obeg, *ocur, *oend; };   // std::streambuf
struct St { Buf* buf; File* out; bool open; };
int eof_(void*) { return -1; }
int over_(void*, int) { return -1; }
void nop_(void*) {}
void* buf_vt[20] = {nullptr, nullptr, (void*)nop_, (void*)nop_, (void*)nop_, (void*)nop_, (void*)nop_, (void*)nop_, (void*)nop_, (void*)nop_, (void*)nop_, (void*)eof_, (void*)eof_, (void*)over_, (void*)nop_, (void*)over_, nullptr, nullptr, nullptr, nullptr};
long str_vt[4][8];   // [-3] of the address point is the offset of the virtual base
char* ios_of(void* s) { return (char*)s + (*(long**)s)[-3]; }
int& state(void* s) { return *(int*)(ios_of(s) + 32); }
St& st(void* s) { return **(St**)(ios_of(s) + 40); }
long& gcount_(void* s) { return ((long*)s)[1]; }
void init(void* s, size_t off, size_t bufoff, int slot) {
  str_vt[slot][0] = (long)off; ((long**)s)[0] = &str_vt[slot][3]; char* ios = (char*)s + off; str_vt[2][0] = 0; *(long**)ios = &str_vt[2][3];
  *(int*)(ios + 32) = 0; *(int*)(ios + 24) = 0x1002; *(int*)(ios + 28) = 0; Buf* b = (Buf*)((char*)s + bufoff); b->vptr = &buf_vt[2]; b->beg = b->cur = b->end = b->obeg = b->ocur = b->oend = nullptr;
  *(Buf**)(ios + 232) = b; *(St**)(ios + 40) = new St{b, nullptr, false};
}
File* find(const char* n) { for (File* f = files; f; f = f->next) if (strcmp(f->name, n) == 0) return f; return nullptr; }
void set_in(Buf* b, char* d, size_t n) { b->beg = b->cur = d; b->end = d + n; }
void open_in(void* s, const char* n, int mode) { if (File* f = find(n)) { set_in(st(s).buf, f->data, f->size); st(s).open = true; if (mode & 2) st(s).buf->cur = st(s).buf->end; } else state(s) |= 4; }
bool folder(const char* n) { size_t l = strlen(n); while (l > 1 && n[l - 1] == '/') --l; if (!l || (l == 1 && (*n == '/' || *n == '.'))) return true; for (File* f = files; f; f = f->next) if (strncmp(f->name, n, l) == 0 && f->name[l] == '/') return true; return false; }   // folders are names that end in a slash, or parts of names
bool place(const char* n) { const char* e = strrchr(n, '/'); if (!strict || !e || e == n) return true; size_t l = (size_t)(e - n); char* d = new char[l + 1]; memcpy(d, n, l); d[l] = 0; return folder(d); }
void open_out(void* s, const char* n) { if (!place(n) || (strict && folder(n))) { state(s) |= 4; return; } File* f = find(n); if (!f) { size_t l = strlen(n) + 1; f = new File{new char[l], nullptr, 0, 0, files, false}; memcpy(f->name, n, l); files = f; } f->size = 0; f->cut = false; st(s).out = f; st(s).open = true; }
bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
bool ready(void* s, bool skip) { if (state(s)) { state(s) |= 4; return false; } Buf* b = st(s).buf; if (skip) while (b->cur != b->end && sp(*b->cur)) b->cur++; if (b->cur == b->end) { state(s) |= 6; return false; } return true; }
template <class T> void* get_int(void* s, T& v, bool sgn) {
  if (!ready(s, true)) { return s; }   // v unchanged when the sentry fails
  Buf* b = st(s).buf; bool neg = false; if (*b->cur == '-' || *b->cur == '+') { neg = *b->cur == '-'; b->cur++; } __int128 x = 0; bool any = false, big = false;
  while (b->cur != b->end && *b->cur >= '0' && *b->cur <= '9') { any = true; if (!big) { x = x * 10 + (*b->cur - '0'); if (x > ((__int128)1 << 70)) big = true; } b->cur++; } if (b->cur == b->end) state(s) |= 2;
  if (!any) { state(s) |= 4; v = 0; return s; } if (neg) x = -x; __int128 lo = sgn ? -((__int128)1 << (8 * sizeof(T) - 1)) : 0, hi = ((__int128)1 << (8 * sizeof(T) - sgn)) - 1;
  if (x < lo || x > hi) { state(s) |= 4; v = (T)(x < lo ? lo : hi); } else v = (T)x; return s;
}
}
#define F(ret, name, sym, ...) extern "C" ret name(__VA_ARGS__) __asm__(sym); extern "C" ret name(__VA_ARGS__)
F(void, iss1, "_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEEC1EONS_12basic_stringIcS2_S3_EESt13_Ios_Openmode", void* s, std::string* t, int) { init(s, sizeof(std::istringstream) - sizeof(std::ios), 16, 0); char* d = new char[t->size() + 1]; memcpy(d, t->data(), t->size()); set_in(st(s).buf, d, t->size()); }
F(void, iss2, "_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode", void* s, std::string* t, int m) { iss1(s, t, m); }
F(void, issd, "_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEED1Ev", void*) {}
F(void*, rsi, "_ZNSirsERi", void* s, int* v) { return get_int(s, *v, true); }
F(void*, rss, "_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE", void* s, std::string* t) { if (!ready(s, true)) return s; t->clear(); Buf* b = st(s).buf; while (b->cur != b->end && !sp(*b->cur)) t->push_back(*b->cur++); if (b->cur == b->end) state(s) |= 2; return s; }
F(bool, iosb, "_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv", void* i) { return !(*(int*)((char*)i + 32) & 5); }
F(bool, iosn, "_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv", void* i) { return *(int*)((char*)i + 32) & 5; }
F(bool, iosg, "_ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv", void* i) { return *(int*)((char*)i + 32) == 0; }
F(bool, iose, "_ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv", void* i) { return *(int*)((char*)i + 32) & 2; }
F(bool, iosf, "_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv", void* i) { return *(int*)((char*)i + 32) & 5; }
F(void, iosc, "_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate", void* i, int v) { *(int*)((char*)i + 32) = v; }
F(void*, iosr, "_ZNKSt9basic_iosIcSt11char_traitsIcEE5rdbufEv", void* i) { return *(void**)((char*)i + 232); }
F(void, ifs1, "_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode", void* s, const char* n, int m) { init(s, sizeof(std::ifstream) - sizeof(std::ios), 16, 0); open_in(s, n, m); }
F(void, ifs2, "_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode", void* s, std::string* n, int m) { ifs1(s, n->c_str(), m); }
F(void, ifsd, "_ZNSt14basic_ifstreamIcSt11char_traitsIcEED1Ev", void*) {}
F(bool, ifso, "_ZNSt14basic_ifstreamIcSt11char_traitsIcEE7is_openEv", void* s) { return st(s).open; }
F(bool, ifsoc, "_ZNKSt14basic_ifstreamIcSt11char_traitsIcEE7is_openEv", void* s) { return st(s).open; }
F(void, ifsc, "_ZNSt14basic_ifstreamIcSt11char_traitsIcEE5closeEv", void* s) { if (!st(s).open) state(s) |= 4; st(s).open = false; }
F(void, ofs1, "_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode", void* s, const char* n, int) { init(s, sizeof(std::ofstream) - sizeof(std::ios), 8, 1); open_out(s, n); }
F(void, ofs2, "_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode", void* s, std::string* n, int m) { ofs1(s, n->c_str(), m); }
F(void, ofsd, "_ZNSt14basic_ofstreamIcSt11char_traitsIcEED1Ev", void*) {}
F(bool, ofso, "_ZNSt14basic_ofstreamIcSt11char_traitsIcEE7is_openEv", void* s) { return st(s).open; }
F(bool, ofsoc, "_ZNKSt14basic_ofstreamIcSt11char_traitsIcEE7is_openEv", void* s) { return st(s).open; }
F(void, ofsc, "_ZNSt14basic_ofstreamIcSt11char_traitsIcEE5closeEv", void* s) { if (!st(s).open || (st(s).out && st(s).out->cut)) state(s) |= 4; st(s).open = false; }
F(void*, owr, "_ZNSo5writeEPKcl", void* s, const char* p, long n) { File* f = st(s).out; if (!f || (state(s) & 5)) { state(s) |= 5; return s; } if (f->name && limit >= 0 && f->size + (size_t)n > (size_t)limit) { f->cut = true; n = (size_t)limit > f->size ? limit - (long)f->size : 0; } if (f->size + (size_t)n > f->cap) { size_t c = (f->size + (size_t)n) * 2; char* d = new char[c]; if (f->size) memcpy(d, f->data, f->size); f->data = d; f->cap = c; } memcpy(f->data + f->size, p, (size_t)n); f->size += (size_t)n; return s; }
F(void*, ins, "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l", void* s, const char* p, long n) { return owr(s, p, n); }
bool ours(void* s) { return *(void**)s != nullptr; }   // not one of the console's streams
F(void*, insc, "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc", void* s, const char* p) { return ours(s) ? owr(s, p, (long)strlen(p)) : s; }
F(void*, insch, "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c", void* s, char c) { return ours(s) ? owr(s, &c, 1) : s; }
F(void*, inss, "_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE", void* s, std::string* t) { return ours(s) ? owr(s, t->data(), (long)t->size()) : s; }
F(void*, insl, "_ZNSolsEl", void* s, long v) { if (!ours(s)) return s; char b[24]; int n = 24; bool neg = v < 0; unsigned long u = neg ? 0ul - (unsigned long)v : (unsigned long)v; do { b[--n] = (char)('0' + u % 10); u /= 10; } while (u); if (neg) b[--n] = '-'; return owr(s, b + n, 24 - n); }
F(void*, insm, "_ZNSolsEm", void* s, unsigned long v) { return insl(s, (long)v); }
F(void*, insi, "_ZNSolsEi", void* s, int v) { return insl(s, v); }
F(void*, inst, "_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St9_Put_timeIS3_E", void* s, void*, const char*) { return s; }   // times print as nothing
F(void, oss1, "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev", void* s) { init(s, sizeof(std::ostringstream) - sizeof(std::ios), 8, 3); st(s).out = new File{nullptr, nullptr, 0, 0, nullptr, false}; st(s).open = true; }
F(void, ossd, "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev", void*) {}
F(void, osss, "_ZNKRSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv", std::string* r, void* s) { File* f = st(s).out; new (r) std::string(f->data ? f->data : "", f->size); }
F(void, ofop, "_ZNSt14basic_ofstreamIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode", void* s, const char* n, int) { state(s) = 0; open_out(s, n); }
extern "C" void vp_disk(long n) { limit = n; strict = true; }
extern "C" const char* vp_file(int i) { for (File* f = files; f; f = f->next, --i) if (i == 0) return f->name; return nullptr; }   // the i-th newest file
F(void*, opu, "_ZNSo3putEc", void* s, char c) { return owr(s, &c, 1); }
F(void*, ofl, "_ZNSo5flushEv", void* s) { if (ours(s) && st(s).out && st(s).out->cut) state(s) |= 1; return s; }
F(void*, gl3, "_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_", void* s, std::string* t, char e) {
  if (state(s)) { state(s) |= 4; return s; } t->clear(); Buf* b = st(s).buf; if (b->cur == b->end) { state(s) |= 6; return s; } while (b->cur != b->end && *b->cur != e) t->push_back(*b->cur++); if (b->cur == b->end) state(s) |= 2; else b->cur++; return s; }
F(void*, gl2, "_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE", void* s, std::string* t) { return gl3(s, t, '\n'); }
F(void*, ird, "_ZNSi4readEPcl", void* s, char* p, long n) { gcount_(s) = 0; if (state(s)) { state(s) |= 4; return s; } Buf* b = st(s).buf; long k = b->end - b->cur; if (k > n) k = n; if (k > 0) memcpy(p, b->cur, (size_t)k); b->cur += k; gcount_(s) = k; if (k < n) state(s) |= 6; return s; }
F(void*, isk, "_ZNSi5seekgElSt12_Ios_Seekdir", void* s, long o, int dir) { state(s) &= ~2; if (state(s) & 5) return s; Buf* b = st(s).buf; long base = dir == 0 ? 0 : dir == 1 ? b->cur - b->beg : b->end - b->beg; long p = base + o; if (p < 0) { state(s) |= 4; return s; } if (p > b->end - b->beg) p = b->end - b->beg; b->cur = b->beg + p; return s; }
struct Fpos { long off; long st; };
F(void*, iskp, "_ZNSi5seekgESt4fposI11__mbstate_tE", void* s, long o, long) { return isk(s, o, 0); }
F(Fpos, itl, "_ZNSi5tellgEv", void* s) { if (state(s) & 5) return {-1, 0}; return {st(s).buf->cur - st(s).buf->beg, 0}; }
F(int, iget, "_ZNSi3getEv", void* s) { gcount_(s) = 0; if (state(s)) { state(s) |= 4; return -1; } Buf* b = st(s).buf; if (b->cur == b->end) { state(s) |= 6; return -1; } gcount_(s) = 1; return (unsigned char)*b->cur++; }
F(long, igc, "_ZNKSi6gcountEv", void* s) { return gcount_(s); }
F(void*, igetc, "_ZNSi3getERc", void* s, char* p) { int c = iget(s); if (c >= 0) *p = (char)c; return s; }
F(void*, clt, "localtime_r", const void*, void* t) { memset(t, 0, 56); return t; }
// paths: only their text matters
F(void, psc, "_ZNSt10filesystem7__cxx114path14_M_split_cmptsEv", void*) {}
F(void, plc, "_ZNSt10filesystem7__cxx114path5_ListC1Ev", void** l) { *l = (void*)3; }
F(void, plcc, "_ZNSt10filesystem7__cxx114path5_ListC1ERKS2_", void** l, void**) { *l = (void*)3; }
F(void, pld, "_ZNKSt10filesystem7__cxx114path5_List13_Impl_deleterclEPNS2_5_ImplE", void*, void*) {}
F(long, fss, "_ZNSt10filesystem6statusERKNS_7__cxx114pathE", std::string* p) { return find(p->c_str()) ? 1 | (0777l << 32) : strict && folder(p->c_str()) ? 2 | (0777l << 32) : 0xff; }
F(long, fsse, "_ZNSt10filesystem6statusERKNS_7__cxx114pathERSt10error_code", std::string* p, void*) { return find(p->c_str()) ? 1 | (0777l << 32) : strict && folder(p->c_str()) ? 2 | (0777l << 32) : 0xff; }
struct Ext { std::string* s; size_t pos; };
F(Ext, pfe, "_ZNKSt10filesystem7__cxx114path17_M_find_extensionEv", std::string* q) { size_t b = q->rfind('/'); b = b == std::string::npos ? 0 : b + 1; std::string* p = b ? new std::string(q->substr(b)) : q; size_t d = p->rfind('.'); if (p->empty() || *p == "." || *p == "..") return {nullptr, 0}; if (d == std::string::npos || d == 0) return {p, std::string::npos}; return {p, d}; }
struct Path { std::string s; void* l; };
F(bool, php, "_ZNKSt10filesystem7__cxx114path15has_parent_pathEv", std::string* p) { return p->find('/') != std::string::npos; }
F(bool, cdr, "_ZNSt10filesystem18create_directoriesERKNS_7__cxx114pathE", std::string* p) { if (strict && !folder(p->c_str())) { char* d = new char[p->size() + 2]; memcpy(d, p->c_str(), p->size()); d[p->size()] = '/'; d[p->size() + 1] = 0; files = new File{d, nullptr, 0, 0, files, false}; } return true; }
bool unlink_(const char* n) { for (File** f = &files; *f; f = &(*f)->next) if (strcmp((*f)->name, n) == 0) { *f = (*f)->next; return true; } return false; }
void rename_(const char* a, std::string* b) { File* f = find(a); if (!f) return; unlink_(b->c_str()); f->name = new char[b->size() + 1]; memcpy(f->name, b->c_str(), b->size() + 1); }
F(bool, frm, "_ZNSt10filesystem6removeERKNS_7__cxx114pathE", std::string* p) { return unlink_(p->c_str()); }
F(bool, frme, "_ZNSt10filesystem6removeERKNS_7__cxx114pathERSt10error_code", std::string* p, void* e) { *(int*)e = 0; return unlink_(p->c_str()); }
F(void, frn, "_ZNSt10filesystem6renameERKNS_7__cxx114pathES3_", std::string* a, std::string* b) { rename_(a->c_str(), b); }
F(void, frne, "_ZNSt10filesystem6renameERKNS_7__cxx114pathES3_RSt10error_code", std::string* a, std::string* b, void* e) { *(int*)e = 0; rename_(a->c_str(), b); }
F(void, ppp, "_ZNKSt10filesystem7__cxx114path11parent_pathEv", Path* r, std::string* p) { size_t b = p->rfind('/'); new (&r->s) std::string(b == std::string::npos ? std::string() : b == 0 ? std::string("/") : p->substr(0, b)); r->l = (void*)3; }
F(void, fcp, "_ZNSt10filesystem12current_pathB5cxx11Ev", Path* r) { new (&r->s) std::string("/cwd"); r->l = (void*)3; }
F(void, fab, "_ZNSt10filesystem8absoluteERKNS_7__cxx114pathE", Path* r, std::string* p) { new (&r->s) std::string(*p); r->l = (void*)3; }
F(void, pco, "_ZNSt10filesystem7__cxx114path9_M_concatESt17basic_string_viewIcSt11char_traitsIcEE", Path* a, size_t n, const char* t) { a->s.append(t, n); }
F(void*, ppl, "_ZNSt10filesystem7__cxx114pathpLERKS1_", Path* a, std::string* b) { a->s += *b; return a; }
F(void*, pas, "_ZNSt10filesystem7__cxx114pathaSERKS1_", Path* a, std::string* b) { a->s = *b; return a; }
F(void*, pdv, "_ZNSt10filesystem7__cxx114pathdVERKS1_", Path* a, std::string* b) { if ((!b->empty() && (*b)[0] == '/') || a->s.empty()) a->s = *b; else { if (a->s.back() != '/') a->s += '/'; a->s += *b; } return a; }
// C files
struct CFile { File* f; size_t pos; };
F(void*, cfo, "fopen", const char* n, const char*) { File* f = find(n); return f ? new CFile{f, 0} : nullptr; }
F(int, cfc, "fclose", void*) { return 0; }
F(int, cfs, "fseek", CFile* c, long o, int w) { c->pos = (size_t)((w == 0 ? 0 : w == 1 ? (long)c->pos : (long)c->f->size) + o); return 0; }
F(long, cft, "ftell", CFile* c) { return (long)c->pos; }
F(size_t, cfr, "fread", void* p, size_t m, size_t n, CFile* c) { size_t k = m * n, r = c->pos < c->f->size ? c->f->size - c->pos : 0; if (k > r) k = r; if (k) memcpy(p, c->f->data + c->pos, k); c->pos += k; return m ? k / m : 0; }
F(int, crm, "remove", const char* n) { for (File** f = &files; *f; f = &(*f)->next) if (strcmp((*f)->name, n) == 0) { *f = (*f)->next; return 0; } return -1; }
