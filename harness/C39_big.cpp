//! entry: big time=30 opts=--bigthrow
//! libs: -lturbojpeg
//! assume: memory for more than a gigabyte cannot be had
#include <cstdlib>
#include <new>
#include "codec.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/util/paths.hpp"
#include "huira/images/io/io_util.hpp"
#include "huira/images/io/jpeg_io.hpp"
void* operator new(size_t n) { if (n > (1u << 30)) std::__throw_bad_alloc(); return std::malloc(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
using namespace huira;
// a picture whose samples number more than an int can count: there is no buffer that could hold it
ENTRY big() {
    tj::File f; f.w = (int[]){37838, 46341, 65535}[vp_choice("size", 3)]; f.h = f.w == 65535 ? 65501 : f.w; bool mono = vp_choice("grey", 2); if (mono && f.w == 37838) f.w = f.h = 65535; f.px.resize(3); tj::files.push_back(f); cf::Bytes b = tj::bytes(0); tj::fault = 3;
    bool none = false; try { if (mono) read_image_jpeg_mono(b.data(), b.size()); else read_image_jpeg(b.data(), b.size()); } catch (const std::exception&) { none = true; }
    vp_check(none && !tj::asked, "the decoder is never given less than the image needs"); vp_cover("big");
}
