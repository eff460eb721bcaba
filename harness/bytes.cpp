// Byte helpers; analysed, never executed.
#include <gmlib/memory_utils/memxor.h>
#include <gmlib/memory_utils/endian.h>
#include <utility>
using namespace memory_utils;
typedef std::uint8_t u8;
extern "C" void h_xor_n(u8* o, const u8* a, const u8* b, std::size_t n) { memxor_n(o, a, b, n); }
typedef void (*fixed_t)(void*, const void*, const void*);
template <std::size_t... I>
static void sel(std::size_t n, u8* o, const u8* a, const u8* b, std::index_sequence<I...>)
{
    static const fixed_t t[] = {[](void* o, const void* a, const void* b) { memxor<I>(o, a, b); }...};
    t[n](o, a, b);
}
extern "C" void h_xor_fixed(u8* o, const u8* a, const u8* b, std::size_t n) { sel(n, o, a, b, std::make_index_sequence<140>()); }
extern "C" void h_xor_big(u8* o, const u8* a, const u8* b, std::size_t n)
{
    switch (n)
    {
#define X(N) case N: memxor<N>(o, a, b); break;
    X(255) X(256) X(257) X(511) X(512) X(513) X(640) X(767) X(1024) X(1087) X(1535) X(1536) X(2047)
    }
}
#define LS(W, E)                                                                 \
    extern "C" std::uint##W##_t h_load##W##_##E(const void* p) { return load##W##_##E(p); } \
    extern "C" void h_store##W##_##E(void* p, std::uint##W##_t v) { store##W##_##E(p, v); }
LS(8, le) LS(16, le) LS(32, le) LS(64, le) LS(8, be) LS(16, be) LS(32, be) LS(64, be)
