// Stand-in for CFITSIO: one file per name in memory, header cards as values, pixels converted as CFITSIO does
// (integer images: truncation towards zero after BZERO, overflow is an error; undefined pixels on request only).
#pragma once
#include "vp.hpp"
#include <fitsio.h>
#include <cmath>
#include <string>
#include <vector>
namespace ff {
struct Card { std::string key; char type = 'C'; std::string s; double d = 0; long i = 0; std::string comment; };
struct File { std::string name; int bitpix = 8; double bzero = 0; std::vector<long> naxes; std::vector<Card> cards; std::vector<double> px; };
static void cp(char* a, const char* b) { while ((*a++ = *b++)) {} }
static std::vector<File> disk;
static int opened, calls, fail_at = -1;   // files open now; calls made; the call that fails
static bool bad(int* st) { if (*st > 0) return true; if (calls++ == fail_at) { *st = 106; return true; } return false; }
static File& of(fitsfile* f) { return disk[(size_t)f->HDUposition]; }
static Card* find(File& f, const char* k) { for (auto& c : f.cards) if (c.type != 'K' && c.key == k) return &c; return nullptr; }
static void put(fitsfile* f, Card c) { File& x = of(f); if (Card* o = find(x, c.key.c_str())) { if (c.comment.empty()) c.comment = o->comment; *o = c; } else x.cards.push_back(c); }
static Card card(const char* k, char t, const char* cm) { Card c; c.key = k; c.type = t; if (cm) c.comment = cm; return c; }
static void text(File& f, const char* k, const char* s) { Card c; c.key = k; c.type = 'K'; c.s = s; f.cards.push_back(c); }
static double digits(double v, int decimals) { double u = 1; for (int i = 0; i < decimals; i++) u /= 10; double e = vp_in("digits", -1.0, 1.0); return v + e * u * 50; }   // |v| below 100, kept to so many decimals
static double low(const File& f) { return f.bitpix == 8 ? 0 : f.bitpix == 16 ? -32768.0 : -2147483648.0; }
static double high(const File& f) { return f.bitpix == 8 ? 255 : f.bitpix == 16 ? 32767.0 : 2147483647.0; }
static File& create(const char* n) { for (auto& f : disk) if (f.name == n) { f = File(); f.name = n; return f; } disk.emplace_back(); disk.back().name = n; return disk.back(); }
static void image(File& f, int type, int n, const long* naxes) {
    f.bitpix = type == USHORT_IMG ? 16 : type == ULONG_IMG ? 32 : type; f.bzero = type == USHORT_IMG ? 32768.0 : type == ULONG_IMG ? 2147483648.0 : 0; f.naxes.assign(naxes, naxes + n); long k = 1; for (long a : f.naxes) k *= a; f.px.assign((size_t)k, 0.0);
    Card c = card("SIMPLE", 'L', "conforms"); c.i = 1; f.cards.push_back(c); c = card("BITPIX", 'I', ""); c.i = f.bitpix; f.cards.push_back(c); c = card("NAXIS", 'I', ""); c.i = n; f.cards.push_back(c);
    const char* nm[4] = {"NAXIS1", "NAXIS2", "NAXIS3", "NAXIS4"}; for (int i = 0; i < n; i++) { c = card(nm[i], 'I', ""); c.i = naxes[i]; f.cards.push_back(c); } c = card("EXTEND", 'L', ""); c.i = 1; f.cards.push_back(c);
    text(f, "COMMENT", "  FITS (Flexible Image Transport System) format is defined in 'Astronomy"); text(f, "COMMENT", "  and Astrophysics', volume 376, page 359; bibcode: 2001A&A...376..359H");
    if (f.bzero != 0) { c = card("BZERO", 'F', ""); c.d = f.bzero; f.cards.push_back(c); c = card("BSCALE", 'F', ""); c.d = 1; f.cards.push_back(c); }
}
}
extern "C" {
void ffgerr(int, char* t) { ff::cp(t, "error"); }
int ffopentest(int, fitsfile** f, const char* n, int, int* st) { if (ff::bad(st)) return *st; for (size_t i = 0; i < ff::disk.size(); i++) if (ff::disk[i].name == n) { *f = new fitsfile; (*f)->HDUposition = (int)i; ff::opened++; return 0; } return *st = 104; }
int ffinit(fitsfile** f, const char* n, int* st) { if (ff::bad(st)) return *st; bool over = *n == '!'; if (over) n++; for (size_t i = 0; i < ff::disk.size(); i++) if (ff::disk[i].name == n && !over) return *st = 105; ff::File& x = ff::create(n); *f = new fitsfile; (*f)->HDUposition = (int)(&x - ff::disk.data()); ff::opened++; return 0; }
int ffdkinit(fitsfile** f, const char* n, int* st) { if (ff::bad(st)) return *st; for (size_t i = 0; i < ff::disk.size(); i++) if (ff::disk[i].name == n) return *st = 105; ff::File& x = ff::create(n); *f = new fitsfile; (*f)->HDUposition = (int)(&x - ff::disk.data()); ff::opened++; return 0; }
int ffdkopn(fitsfile** f, const char* n, int m, int* st) { return ffopentest(0, f, n, m, st); }
int ffclos(fitsfile* f, int* st) { ff::opened--; delete f; return *st; }
int ffcrim(fitsfile* f, int b, int n, long* a, int* st) { if (ff::bad(st)) return *st; ff::image(ff::of(f), b, n, a); return 0; }
int ffgipr(fitsfile* f, int mx, int* b, int* n, long* a, int* st) { if (ff::bad(st)) return *st; auto& x = ff::of(f); *b = x.bitpix; *n = (int)x.naxes.size(); for (int i = 0; i < *n && i < mx; i++) a[i] = x.naxes[(size_t)i]; return 0; }
int ffgiet(fitsfile* f, int* b, int* st) { if (ff::bad(st)) return *st; auto& x = ff::of(f); *b = x.bzero == 0 ? x.bitpix : x.bitpix == 16 ? USHORT_IMG : ULONG_IMG; return 0; }
int ffukys(fitsfile* f, const char* k, const char* v, const char* c, int* st) { if (ff::bad(st)) return *st; auto x = ff::card(k, 'C', c); x.s = v; ff::put(f, x); return 0; }
int ffukyd(fitsfile* f, const char* k, double v, int n, const char* c, int* st) { if (ff::bad(st)) return *st; auto x = ff::card(k, 'F', c); x.d = x.key == "SATURATE" && n >= 9 ? v : ff::digits(v, n); ff::put(f, x); return 0; }
int ffukye(fitsfile* f, const char* k, float v, int n, const char* c, int* st) { return ffukyd(f, k, (double)v, n, c, st); }
int ffukyj(fitsfile* f, const char* k, LONGLONG v, const char* c, int* st) { if (ff::bad(st)) return *st; auto x = ff::card(k, 'I', c); x.i = (long)v; x.d = (double)v; ff::put(f, x); return 0; }
int ffukyl(fitsfile* f, const char* k, int v, const char* c, int* st) { if (ff::bad(st)) return *st; auto x = ff::card(k, 'L', c); x.i = v != 0; ff::put(f, x); return 0; }
int ffuky(fitsfile* f, int t, const char* k, void* v, const char* c, int* st) { if (t == TLONG) return ffukyj(f, k, *(long*)v, c, st); if (t == TINT) return ffukyj(f, k, *(int*)v, c, st); if (t == TDOUBLE) return ffukyd(f, k, *(double*)v, 15, c, st); if (t == TFLOAT) return ffukyd(f, k, (double)*(float*)v, 7, c, st); if (t == TLOGICAL) return ffukyl(f, k, *(int*)v, c, st); if (t == TSTRING) return ffukys(f, k, (const char*)v, c, st); return *st = 410; }
int ffpcom(fitsfile* f, const char* c, int* st) { if (ff::bad(st)) return *st; ff::text(ff::of(f), "COMMENT", c); return 0; }
int ffphis(fitsfile* f, const char* c, int* st) { if (ff::bad(st)) return *st; ff::text(ff::of(f), "HISTORY", c); return 0; }
int ffgkys(fitsfile* f, const char* k, char* v, char* c, int* st) { if (*st > 0) return *st; auto* x = ff::find(ff::of(f), k); if (!x) return *st = KEY_NO_EXIST; ff::cp(v, x->s.c_str()); if (c) ff::cp(c, x->comment.c_str()); return 0; }
int ffgkyd(fitsfile* f, const char* k, double* v, char*, int* st) { if (*st > 0) return *st; auto* x = ff::find(ff::of(f), k); if (!x) return *st = KEY_NO_EXIST; if (x->type == 'C') return *st = 406; *v = x->d; return 0; }
int ffgkye(fitsfile* f, const char* k, float* v, char* c, int* st) { double d = 0; if (ffgkyd(f, k, &d, c, st) == 0) *v = (float)d; return *st; }
int ffgkyj(fitsfile* f, const char* k, long* v, char*, int* st) { if (*st > 0) return *st; auto* x = ff::find(ff::of(f), k); if (!x) return *st = KEY_NO_EXIST; if (x->type != 'I' && x->type != 'L') return *st = 403; *v = x->i; return 0; }
int ffgkyl(fitsfile* f, const char* k, int* v, char*, int* st) { if (*st > 0) return *st; auto* x = ff::find(ff::of(f), k); if (!x) return *st = KEY_NO_EXIST; if (x->type != 'L') return *st = 404; *v = (int)x->i; return 0; }
int ffghsp(fitsfile* f, int* n, int* more, int* st) { if (ff::bad(st)) return *st; *n = (int)ff::of(f).cards.size(); if (more) *more = 0; return 0; }
int ffgrec(fitsfile* f, int n, char* c, int* st) { if (*st > 0) return *st; auto& x = ff::of(f); if (n < 1 || n > (int)x.cards.size()) return *st = 203; auto& k = x.cards[(size_t)n - 1]; std::string t = k.key; while (t.size() < 8) t += ' '; if (k.type == 'K') t += k.s; else { t += "= "; t += (char)(32 + n); t += (char)(32 + f->HDUposition); } ff::cp(c, t.c_str()); return 0; }
int ffgknm(char* c, char* n, int* len, int* st) { if (*st > 0) return *st; int i = 0; for (; i < 8 && c[i] && c[i] != ' '; i++) n[i] = c[i]; n[i] = 0; *len = i; return 0; }
int ffpsvc(char* c, char* v, char* cm, int* st) { if (*st > 0) return *st; auto& k = ff::disk[(size_t)(c[11] - 32)].cards[(size_t)(c[10] - 33)]; v[0] = k.type; v[1] = 0; if (cm) ff::cp(cm, k.comment.c_str()); return 0; }
int ffdtyp(const char* v, char* t, int* st) { if (*st > 0) return *st; *t = v[0]; return 0; }
int ffppx(fitsfile* f, int t, long* first, LONGLONG n, void* a, int* st) {
    if (ff::bad(st)) return *st; auto& x = ff::of(f); for (size_t i = 0; i < x.naxes.size(); i++) if (first[i] != 1) return *st = 321; if (n != (LONGLONG)x.px.size()) return *st = 321; bool over = false;
    for (size_t i = 0; i < (size_t)n; i++) { double v = t == TFLOAT ? (double)((float*)a)[i] : ((double*)a)[i]; if (x.bitpix > 0) { v -= x.bzero; if (vp_fork(v < ff::low(x) - 0.49) || vp_fork(v > ff::high(x) + 0.49)) { over = true; v = 0; } v = x.bzero == 0 ? std::trunc(v) : std::round(v); } else if (x.bitpix == -32) v = (double)(float)v; x.px[i] = v; }
    if (over) *st = 412; return *st;
}
int ffgpxv(fitsfile* f, int t, long* first, LONGLONG n, void* null, void* a, int* any, int* st) {
    if (ff::bad(st)) return *st; auto& x = ff::of(f); for (size_t i = 0; i < x.naxes.size(); i++) if (first[i] != 1) return *st = 321; if (n > (LONGLONG)x.px.size()) return *st = 308; auto* b = ff::find(x, "BLANK"); if (any) *any = 0;
    for (size_t i = 0; i < (size_t)n; i++) { double v = x.px[i]; bool undef = x.bitpix > 0 && b && vp_fork(v == (double)b->i); v += x.bzero; if (t == TFLOAT) ((float*)a)[i] = undef && null ? *(float*)null : (float)v; else ((double*)a)[i] = undef && null ? *(double*)null : v; if (undef && any) *any = 1; } return 0;
}
}
