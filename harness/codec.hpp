// Stand-ins for libpng, libtiff and TurboJPEG, and for C files: everything in memory, uncompressed, with the libraries'
// documented conventions (byte order, expansion of palettes and transparency, strips, tiles, planes, row order).
#pragma once
#include "vp.hpp"
#include <cmath>
#include <csetjmp>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <png.h>
#include <tiffio.h>
#include <turbojpeg.h>
namespace cf {   // files
typedef std::vector<unsigned char> Bytes;
struct Disk { std::string name; Bytes data; };
struct Handle { size_t file; size_t pos; };
static std::vector<Disk> disk; static int opened; static bool no_open, short_write, bad_close;
static size_t file(const char* n) { for (size_t i = 0; i < disk.size(); i++) if (disk[i].name == n) return i; disk.emplace_back(); disk.back().name = n; return disk.size() - 1; }
static Bytes& data(FILE* f) { return disk[((Handle*)f)->file].data; }
}
static FILE* cf_fopen(const char* n, const char* m) { if (cf::no_open) return nullptr; bool w = m[0] == 'w'; if (!w) { bool found = false; for (auto& d : cf::disk) found = found || d.name == n; if (!found) return nullptr; } size_t i = cf::file(n); if (w) cf::disk[i].data.clear(); cf::opened++; return (FILE*)new cf::Handle{i, 0}; }
static int cf_fclose(FILE* f) { cf::opened--; delete (cf::Handle*)f; return cf::bad_close ? EOF : 0; }
static size_t cf_fwrite(const void* p, size_t s, size_t n, FILE* f) { size_t k = cf::short_write && n * s > 1 ? 1 : n * s; auto& d = cf::data(f); for (size_t i = 0; i < k; i++) d.push_back(((const unsigned char*)p)[i]); return k / s; }
static size_t cf_fread(void* p, size_t s, size_t n, FILE* f) { auto* h = (cf::Handle*)f; auto& d = cf::data(f); size_t k = 0; for (; k < s * n && h->pos < d.size(); k++) ((unsigned char*)p)[k] = d[h->pos++]; return k / s; }
static int cf_fseek(FILE* f, long o, int w) { auto* h = (cf::Handle*)f; h->pos = (size_t)(o + (w == SEEK_SET ? 0 : w == SEEK_CUR ? (long)h->pos : (long)cf::data(f).size())); return 0; }
static long cf_ftell(FILE* f) { return (long)((cf::Handle*)f)->pos; }
static int cf_fflush(FILE*) { return cf::bad_close ? EOF : 0; }
static int cf_ferror(FILE*) { return 0; }
namespace std { using ::cf_fopen; using ::cf_fclose; using ::cf_fwrite; using ::cf_fread; using ::cf_fseek; using ::cf_ftell; using ::cf_fflush; using ::cf_ferror; }
#define fopen cf_fopen
#define fclose cf_fclose
#define fwrite cf_fwrite
#define fread cf_fread
#define fseek cf_fseek
#define ftell cf_ftell
#define fflush cf_fflush
#define ferror cf_ferror
namespace pn {   // PNG
struct File { unsigned w = 0, h = 0; int depth = 8, type = 2, interlace = 0; bool srgb = false, icc = false; double gama = 0; std::vector<std::vector<unsigned>> rows; std::vector<unsigned> palette, alpha; int key = -1; };   // palette: r, g, b of each entry; alpha: of each entry; key: the transparent sample value
static std::vector<File> files; static int opened, fault;   // fault: 1 no structure, 2 no info, 3 the library reports an error
static int channels(int type) { return type == PNG_COLOR_TYPE_GRAY || type == PNG_COLOR_TYPE_PALETTE ? 1 : type == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : type == PNG_COLOR_TYPE_RGB ? 3 : 4; }
static cf::Bytes bytes(size_t i) { return {0x89, 'P', 'N', 'G', '\r', '\n', 0x1a, '\n', (unsigned char)i, 'P'}; }
}
struct png_struct_def { pn::File f; bool writing = false, swap = false, pal = false, gray = false, trns = false; FILE* fp = nullptr; void* io = nullptr; png_rw_ptr rd = nullptr; int skipped = 0; int type = 0, depth = 0; size_t row = 0; jmp_buf jb; };
struct png_info_def { int unused; };
extern "C" {
int png_sig_cmp(png_const_bytep s, size_t a, size_t n) { static const unsigned char g[8] = {0x89, 'P', 'N', 'G', '\r', '\n', 0x1a, '\n'}; for (size_t i = a; i < a + n && i < 8; i++) if (s[i] != g[i]) return 1; return 0; }
png_structp png_create_read_struct(png_const_charp, png_voidp, png_error_ptr, png_error_ptr) { if (pn::fault == 1) return nullptr; pn::opened++; return new png_struct_def; }
png_structp png_create_write_struct(png_const_charp, png_voidp, png_error_ptr, png_error_ptr) { if (pn::fault == 1) return nullptr; pn::opened++; auto* p = new png_struct_def; p->writing = true; return p; }
png_infop png_create_info_struct(png_const_structrp) { if (pn::fault == 2) return nullptr; pn::opened++; return new png_info_def; }
void png_destroy_read_struct(png_structpp p, png_infopp i, png_infopp) { if (i && *i) { delete *i; *i = nullptr; pn::opened--; } if (p && *p) { delete *p; *p = nullptr; pn::opened--; } }
void png_destroy_write_struct(png_structpp p, png_infopp i) { png_destroy_read_struct(p, i, nullptr); }
jmp_buf* png_set_longjmp_fn(png_structrp p, png_longjmp_ptr, size_t) { return &p->jb; }
int _setjmp(struct __jmp_buf_tag*) noexcept { return pn::fault == 3; }
void png_set_read_fn(png_structrp p, png_voidp io, png_rw_ptr fn) { p->io = io; p->rd = fn; }
png_voidp png_get_io_ptr(png_const_structrp p) { return p->io; }
void png_set_sig_bytes(png_structrp p, int n) { p->skipped = n; }
void png_read_info(png_structrp p, png_inforp) { unsigned char b[10] = {}; p->rd(p, b, (size_t)(10 - p->skipped)); const unsigned char* t = b + (8 - p->skipped); vp_check(t[1] == 'P' && t[0] < pn::files.size(), "the decoder is given the file's bytes"); if (t[0] < pn::files.size()) p->f = pn::files[t[0]]; p->type = p->f.type; p->depth = p->f.depth; }
png_uint_32 png_get_iCCP(png_const_structrp p, png_inforp, png_charpp, int*, png_bytepp, png_uint_32*) { return p->f.icc; }
png_uint_32 png_get_sRGB(png_const_structrp p, png_const_inforp, int* i) { if (p->f.srgb) *i = 0; return p->f.srgb; }
png_uint_32 png_get_gAMA(png_const_structrp p, png_const_inforp, double* g) { if (p->f.gama == 0) return 0; *g = p->f.gama; return 1; }
png_uint_32 png_get_image_width(png_const_structrp p, png_const_inforp) { return p->f.w; }
png_uint_32 png_get_image_height(png_const_structrp p, png_const_inforp) { return p->f.h; }
png_byte png_get_color_type(png_const_structrp p, png_const_inforp) { return (png_byte)p->type; }
png_byte png_get_bit_depth(png_const_structrp p, png_const_inforp) { return (png_byte)p->depth; }
png_byte png_get_channels(png_const_structrp p, png_const_inforp) { return (png_byte)pn::channels(p->type); }
void png_set_palette_to_rgb(png_structrp p) { p->pal = true; }
void png_set_expand_gray_1_2_4_to_8(png_structrp p) { p->gray = true; }
void png_set_tRNS_to_alpha(png_structrp p) { p->trns = true; }
void png_set_expand(png_structrp p) { p->pal = p->gray = p->trns = true; }
void png_set_swap(png_structrp p) { p->swap = true; }
int png_set_interlace_handling(png_structrp p) { return p->f.interlace ? 7 : 1; }
png_uint_32 png_get_valid(png_const_structrp p, png_const_inforp, png_uint_32 f) { return f == PNG_INFO_tRNS && (!p->f.alpha.empty() || p->f.key >= 0) ? PNG_INFO_tRNS : 0; }
void png_read_update_info(png_structrp p, png_inforp) { auto& f = p->f; bool t = p->trns && (!f.alpha.empty() || f.key >= 0); if (f.type == PNG_COLOR_TYPE_PALETTE && (p->pal || t)) { p->type = !f.alpha.empty() ? PNG_COLOR_TYPE_RGB_ALPHA : PNG_COLOR_TYPE_RGB; p->depth = 8; } else if (f.type == PNG_COLOR_TYPE_GRAY && f.depth < 8 && (p->gray || t)) p->depth = 8; if (t && f.type == PNG_COLOR_TYPE_GRAY) p->type = PNG_COLOR_TYPE_GRAY_ALPHA; if (t && f.type == PNG_COLOR_TYPE_RGB) p->type = PNG_COLOR_TYPE_RGB_ALPHA; }
size_t png_get_rowbytes(png_const_structrp p, png_const_inforp) { return ((size_t)p->f.w * (size_t)pn::channels(p->type) * (size_t)p->depth + 7) / 8; }
void png_read_row(png_structrp p, png_bytep o, png_bytep) {
    auto& f = p->f; auto& r = f.rows[p->row++]; size_t k = 0; int in = pn::channels(f.type); auto put = [&](unsigned v) { if (p->depth == 16) { uint16_t u = (uint16_t)v; if (p->swap) std::memcpy(o + k, &u, 2); else { o[k] = (unsigned char)(u >> 8); o[k + 1] = (unsigned char)u; } k += 2; } else o[k++] = (unsigned char)v; };
    if (p->depth < 8) { for (size_t i = 0; i < png_get_rowbytes(p, nullptr); i++) o[i] = 0xaa; return; } unsigned most = (1u << f.depth) - 1;
    for (size_t x = 0; x < f.w; x++) { if (f.type == PNG_COLOR_TYPE_PALETTE && p->type != PNG_COLOR_TYPE_PALETTE) { size_t e = r[x]; for (size_t c = 0; c < 3; c++) put(f.palette[3 * e + c]); if (p->type == PNG_COLOR_TYPE_RGB_ALPHA) put(e < f.alpha.size() ? f.alpha[e] : 255u); continue; } bool clear = true; for (int c = 0; c < in; c++) { unsigned v = r[x * (size_t)in + (size_t)c]; clear = clear && v == (unsigned)f.key; put(f.depth < 8 ? v * (255u / most) : v); } if (pn::channels(p->type) == in + 1) put(clear ? 0u : p->depth == 16 ? 65535u : 255u); }
}
void png_read_image(png_structrp p, png_bytepp rows) { for (size_t y = 0; y < p->f.h; y++) png_read_row(p, rows[y], nullptr); }
void png_read_end(png_structrp, png_inforp) {}
void png_init_io(png_structrp p, png_FILE_p fp) { p->fp = fp; }
void png_set_IHDR(png_const_structrp p, png_inforp, png_uint_32 w, png_uint_32 h, int d, int t, int i, int, int) { auto& f = const_cast<png_structp>(p)->f; f.w = w; f.h = h; f.depth = d; f.type = t; f.interlace = i; }
void png_set_sRGB(png_const_structrp p, png_inforp, int) { const_cast<png_structp>(p)->f.srgb = true; }
void png_set_gAMA(png_const_structrp p, png_inforp, double g) { const_cast<png_structp>(p)->f.gama = g + 0.000005 * vp_in("digits", -1.0, 1.0); }   // kept in units of 1/100000
void png_write_info(png_structrp, png_const_inforp) {}
void png_write_row(png_structrp p, png_const_bytep b) { auto& f = p->f; std::vector<unsigned> r; size_t n = (size_t)f.w * (size_t)pn::channels(f.type); for (size_t i = 0; i < n; i++) if (f.depth == 16) { uint16_t u; if (p->swap) std::memcpy(&u, b + 2 * i, 2); else u = (uint16_t)(b[2 * i] << 8 | b[2 * i + 1]); r.push_back(u); } else r.push_back(b[i]); f.rows.push_back(r); }
void png_write_image(png_structrp p, png_bytepp rows) { for (size_t y = 0; y < p->f.h; y++) png_write_row(p, rows[y]); }
void png_write_end(png_structrp p, png_inforp) { vp_check(p->f.rows.size() == p->f.h, "every row is written"); pn::files.push_back(p->f); auto& d = cf::data(p->fp); for (auto c : pn::bytes(pn::files.size() - 1)) d.push_back(c); }
}
namespace tj {   // JPEG
struct File { int w = 0, h = 0; bool gray = false; int quality = 0; cf::Bytes px; };
static std::vector<File> files; static int opened, buffers, fault; static bool asked;   // fault: 1 no handle, 2 no header, 3 no pixels; asked: for the pixels
static size_t ch(int pf) { return pf == TJPF_GRAY ? 1 : pf == TJPF_RGB || pf == TJPF_BGR ? 3 : 4; }
static size_t off(int pf, int c) { return (size_t)(pf == TJPF_BGR || pf == TJPF_BGRX || pf == TJPF_BGRA ? 2 - c : pf == TJPF_XBGR || pf == TJPF_ABGR ? 3 - c : pf == TJPF_XRGB || pf == TJPF_ARGB ? 1 + c : c); }
static cf::Bytes bytes(size_t i) { return {0xff, 0xd8, (unsigned char)i, 'J', 0xff, 0xd9}; }
static File* of(const unsigned char* b, unsigned long n) { return n == 6 && b[0] == 0xff && b[1] == 0xd8 && b[3] == 'J' && b[5] == 0xd9 && b[2] < files.size() ? &files[b[2]] : nullptr; }
}
extern "C" {
tjhandle tjInitCompress(void) { if (tj::fault == 1) return nullptr; tj::opened++; return new int(0); }
tjhandle tjInitDecompress(void) { return tjInitCompress(); }
int tjDestroy(tjhandle h) { tj::opened--; delete (int*)h; return 0; }
char* tjGetErrorStr2(tjhandle) { static char e[] = "fault"; return e; }
unsigned char* tjAlloc(int n) { tj::buffers++; return (unsigned char*)std::malloc((size_t)n); }
void tjFree(unsigned char* p) { if (p) tj::buffers--; std::free(p); }
int tjDecompressHeader3(tjhandle, const unsigned char* b, unsigned long n, int* w, int* h, int* s, int* c) { auto* f = tj::of(b, n); if (!f || tj::fault == 2) return -1; *w = f->w; *h = f->h; *s = f->gray ? TJSAMP_GRAY : TJSAMP_444; *c = f->gray ? TJCS_GRAY : TJCS_YCbCr; return 0; }
int tjDecompress2(tjhandle, const unsigned char* b, unsigned long n, unsigned char* o, int w, int pitch, int h, int pf, int flags) { tj::asked = true; auto* f = tj::of(b, n); if (!f || tj::fault == 3 || (w && w < f->w) || (h && h < f->h)) return -1; size_t k = tj::ch(pf), row = pitch ? (size_t)pitch : (size_t)f->w * k; for (int y = 0; y < f->h; y++) for (int x = 0; x < f->w; x++) { unsigned char* q = o + (size_t)(flags & TJFLAG_BOTTOMUP ? f->h - 1 - y : y) * row + (size_t)x * k; const unsigned char* p = &f->px[((size_t)y * (size_t)f->w + (size_t)x) * 3]; if (k == 1) q[0] = f->gray ? p[0] : (unsigned char)((77 * p[0] + 150 * p[1] + 29 * p[2]) / 256); else { if (k == 4) q[pf == TJPF_XRGB || pf == TJPF_ARGB || pf == TJPF_XBGR || pf == TJPF_ABGR ? 0 : 3] = 255; for (int c = 0; c < 3; c++) q[tj::off(pf, c)] = p[c]; } } return 0; }
int tjCompress2(tjhandle, const unsigned char* s, int w, int pitch, int h, int pf, unsigned char** buf, unsigned long* n, int, int quality, int flags) { if (tj::fault == 3) return -1; size_t k = tj::ch(pf), row = pitch ? (size_t)pitch : (size_t)w * k; tj::File f; f.w = w; f.h = h; f.gray = k == 1; f.quality = quality; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int c = 0; c < 3; c++) f.px.push_back(s[(size_t)(flags & TJFLAG_BOTTOMUP ? h - 1 - y : y) * row + (size_t)x * k + (k == 1 ? 0 : tj::off(pf, c))]); tj::files.push_back(f); auto b = tj::bytes(tj::files.size() - 1); *buf = tjAlloc((int)b.size()); for (size_t i = 0; i < b.size(); i++) (*buf)[i] = b[i]; *n = b.size(); return 0; }
}
namespace tf {   // TIFF
struct File { unsigned w = 0, h = 0; int spp = 1, bps = 8, format = SAMPLEFORMAT_UINT, photo = PHOTOMETRIC_MINISBLACK, planar = PLANARCONFIG_CONTIG, orient = ORIENTATION_TOPLEFT, tw = 0, th = 0; std::vector<uint16_t> extra; std::string description, artist; cf::Bytes raw; std::vector<uint32_t> rgba; unsigned line = 0; unsigned rows = 0; };   // raw: planes of rows; line: bytes of a scan line, if unusual
static std::vector<File> files; static int opened, calls, fault = -1; static bool refuse;   // the call that fails
static bool bad() { return calls++ == fault; }
static size_t line(const File& f) { return f.line ? f.line : (size_t)f.w * (size_t)(f.planar == PLANARCONFIG_CONTIG ? f.spp : 1) * (size_t)f.bps / 8; }
static cf::Bytes bytes(size_t i) { return {'I', 'I', 42, 0, (unsigned char)i, 'T'}; }
}
struct tiff { tf::File f; bool writing; std::string name; };
extern "C" {
TIFFErrorHandler TIFFSetWarningHandler(TIFFErrorHandler) { return nullptr; }
TIFFErrorHandler TIFFSetErrorHandler(TIFFErrorHandler) { return nullptr; }
TIFFErrorHandlerExt TIFFSetErrorHandlerExt(TIFFErrorHandlerExt) { return nullptr; }
TIFF* TIFFOpen(const char* n, const char* m) { if (tf::refuse) return nullptr; tf::opened++; auto* t = new tiff; t->writing = m[0] == 'w'; t->name = n; return t; }
TIFF* TIFFClientOpen(const char*, const char*, thandle_t h, TIFFReadWriteProc rd, TIFFReadWriteProc, TIFFSeekProc sk, TIFFCloseProc, TIFFSizeProc sz, TIFFMapFileProc, TIFFUnmapFileProc) {
    if (tf::refuse) return nullptr; if (sz(h) != 6) return nullptr; unsigned char b[6] = {}; if (sk(h, 4, SEEK_SET) != 4 || rd(h, b + 4, 9) != 2 || sk(h, 0, SEEK_SET) != 0 || rd(h, b, 4) != 4 || sk(h, 0, SEEK_CUR) != 4 || sk(h, 0, SEEK_END) != 6 || rd(h, b, 1) != 0) { vp_check(false, "the decoder is given the file's bytes"); return nullptr; }
    if (b[0] != 'I' || b[1] != 'I' || b[2] != 42 || b[5] != 'T' || b[4] >= tf::files.size()) return nullptr; tf::opened++; auto* t = new tiff; t->writing = false; t->f = tf::files[b[4]]; return t; }
int TIFFFlush(TIFF*) { return tf::bad() ? 0 : 1; }
void TIFFClose(TIFF* t) { tf::opened--; if (t->writing) { tf::files.push_back(t->f); cf::disk[cf::file(t->name.c_str())].data = tf::bytes(tf::files.size() - 1); } delete t; }
int TIFFSetField(TIFF* t, uint32_t tag, ...) { va_list a; va_start(a, tag); auto& f = t->f; switch (tag) { case TIFFTAG_IMAGEWIDTH: f.w = va_arg(a, uint32_t); break; case TIFFTAG_IMAGELENGTH: f.h = va_arg(a, uint32_t); break; case TIFFTAG_SAMPLESPERPIXEL: f.spp = va_arg(a, int); break; case TIFFTAG_BITSPERSAMPLE: f.bps = va_arg(a, int); break; case TIFFTAG_ORIENTATION: f.orient = va_arg(a, int); break; case TIFFTAG_PLANARCONFIG: f.planar = va_arg(a, int); break; case TIFFTAG_PHOTOMETRIC: f.photo = va_arg(a, int); break; case TIFFTAG_SAMPLEFORMAT: f.format = va_arg(a, int); break; case TIFFTAG_IMAGEDESCRIPTION: f.description = va_arg(a, const char*); break; case TIFFTAG_ARTIST: f.artist = va_arg(a, const char*); break; case TIFFTAG_EXTRASAMPLES: { int n = va_arg(a, int); uint16_t* p = va_arg(a, uint16_t*); f.extra.clear(); for (int i = 0; i < n; i++) f.extra.push_back(p[i]); break; } default: break; } va_end(a); return 1; }
static int get(TIFF* t, uint32_t tag, va_list a) { auto& f = t->f; auto u16 = [&](int v) { *va_arg(a, uint16_t*) = (uint16_t)v; return 1; }; switch (tag) { case TIFFTAG_IMAGEWIDTH: *va_arg(a, uint32_t*) = f.w; return 1; case TIFFTAG_IMAGELENGTH: *va_arg(a, uint32_t*) = f.h; return 1; case TIFFTAG_TILEWIDTH: *va_arg(a, uint32_t*) = (uint32_t)f.tw; return f.tw > 0; case TIFFTAG_TILELENGTH: *va_arg(a, uint32_t*) = (uint32_t)f.th; return f.th > 0; case TIFFTAG_SAMPLESPERPIXEL: return u16(f.spp); case TIFFTAG_BITSPERSAMPLE: return u16(f.bps); case TIFFTAG_SAMPLEFORMAT: return u16(f.format); case TIFFTAG_PHOTOMETRIC: return u16(f.photo); case TIFFTAG_PLANARCONFIG: return u16(f.planar); case TIFFTAG_ORIENTATION: return u16(f.orient); case TIFFTAG_EXTRASAMPLES: *va_arg(a, uint16_t*) = (uint16_t)f.extra.size(); *va_arg(a, uint16_t**) = f.extra.empty() ? nullptr : f.extra.data(); return 1; default: return 0; } }
int TIFFGetField(TIFF* t, uint32_t tag, ...) { va_list a; va_start(a, tag); int r = get(t, tag, a); va_end(a); return r; }
int TIFFGetFieldDefaulted(TIFF* t, uint32_t tag, ...) { va_list a; va_start(a, tag); int r = get(t, tag, a); va_end(a); return r; }
int TIFFIsTiled(TIFF* t) { return t->f.tw > 0; }
tmsize_t TIFFScanlineSize(TIFF* t) { return (tmsize_t)tf::line(t->f); }
tmsize_t TIFFTileSize(TIFF* t) { auto& f = t->f; return (tmsize_t)f.tw * f.th * (f.planar == PLANARCONFIG_CONTIG ? f.spp : 1) * f.bps / 8; }
int TIFFReadScanline(TIFF* t, void* b, uint32_t y, uint16_t plane) { auto& f = t->f; if (tf::bad() || y >= f.h || f.tw || (f.planar != PLANARCONFIG_CONTIG && plane >= f.spp)) return -1; size_t n = tf::line(f); if (f.planar == PLANARCONFIG_CONTIG) plane = 0; std::memcpy(b, &f.raw[((size_t)plane * f.h + y) * n], n); return 1; }
tmsize_t TIFFReadTile(TIFF* t, void* b, uint32_t x, uint32_t y, uint32_t, uint16_t plane) { auto& f = t->f; if (tf::bad() || x >= f.w || y >= f.h || !f.tw) return -1; bool contig = f.planar == PLANARCONFIG_CONTIG; if (contig) plane = 0; size_t px = (size_t)(contig ? f.spp : 1) * (size_t)f.bps / 8; uint32_t x0 = x - x % (uint32_t)f.tw, y0 = y - y % (uint32_t)f.th; for (uint32_t j = 0; j < (uint32_t)f.th; j++) for (uint32_t i = 0; i < (uint32_t)f.tw; i++) { auto* q = (unsigned char*)b + ((size_t)j * (size_t)f.tw + i) * px; if (x0 + i < f.w && y0 + j < f.h) std::memcpy(q, &f.raw[(((size_t)plane * f.h + y0 + j) * f.w + x0 + i) * px], px); else std::memset(q, 0xee, px); } return TIFFTileSize(t); }
int TIFFReadRGBAImageOriented(TIFF* t, uint32_t w, uint32_t h, uint32_t* o, int orient, int) { auto& f = t->f; if (tf::bad() || w != f.w || h != f.h) return 0; for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) o[(orient == ORIENTATION_BOTLEFT || orient == ORIENTATION_BOTRIGHT ? h - 1 - y : y) * w + (orient == ORIENTATION_TOPRIGHT || orient == ORIENTATION_BOTRIGHT ? w - 1 - x : x)] = f.rgba[y * w + x]; return 1; }
int TIFFReadRGBAImage(TIFF* t, uint32_t w, uint32_t h, uint32_t* o, int s) { return TIFFReadRGBAImageOriented(t, w, h, o, ORIENTATION_BOTLEFT, s); }
int TIFFWriteScanline(TIFF* t, void* b, uint32_t y, uint16_t plane) { auto& f = t->f; if (tf::bad() || y >= f.h || plane >= (f.planar == PLANARCONFIG_CONTIG ? 1 : f.spp)) return -1; size_t n = tf::line(f); f.raw.resize(n * f.h * (size_t)(f.planar == PLANARCONFIG_CONTIG ? 1 : f.spp)); std::memcpy(&f.raw[((size_t)plane * f.h + y) * n], b, n); f.rows++; return 1; }
}
