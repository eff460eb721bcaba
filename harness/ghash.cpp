// Entry points over the GHASH back ends; analysed, never executed.
#include <gmlib/ghash/internal/ghash_common.h>
#include <gmlib/ghash/internal/ghash_lut256.h>
#include <gmlib/ghash/internal/ghash_pclmul.h>
#define G(N)                                                                                                                   \
    extern "C" void h_##N##_init(ghash::internal::N::GHashCTX* c, const std::uint8_t* h) { ghash::internal::N::ghash_init(c, h); } \
    extern "C" void h_##N##_reset(ghash::internal::N::GHashCTX* c) { ghash::internal::N::ghash_reset(c); }                     \
    extern "C" void h_##N##_blocks(ghash::internal::N::GHashCTX* c, const std::uint8_t* in, std::size_t n)                     \
    { ghash::internal::N::ghash_update_blocks(c, in, n); }                                                                     \
    extern "C" int h_##N##_final(ghash::internal::N::GHashCTX* c, std::uint8_t* d, const std::uint8_t* in, std::size_t n)      \
    { return ghash::internal::N::ghash_final_block(c, d, in, n); }                                                             \
    extern "C" const std::size_t h_##N##_info[1] = {sizeof(ghash::internal::N::GHashCTX)};
G(common)
G(lut256)
#if defined(CPU_FLAG_PCLMUL) && defined(CPU_FLAG_SSE2)
G(pclmul)
#endif
