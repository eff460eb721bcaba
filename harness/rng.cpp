// Random sources over a modelled hardware instruction; analysed, never executed.
#include <gmlib/rng/rng.h>
#include <gmlib/rng/std_rng.h>
#include <gmlib/rng/cstd_rng.h>
#include <gmlib/rng/hardware_rng/rdrand32_rng.h>
#include <gmlib/rng/hardware_rng/rdrand64_rng.h>
#include <gmlib/rng/hardware_rng/rdseed32_rng.h>
#include <gmlib/rng/hardware_rng/rdseed64_rng.h>
typedef std::uint8_t u8;
#define G(N, ...)                                                                             \
    extern "C" void h_gen_##N(void* o, std::size_t n) { __VA_ARGS__ r; r.gen(o, n); }        \
    extern "C" std::uint64_t h_rand64_##N() { __VA_ARGS__ r; rng::Rng& b = r; return b.rand<std::uint64_t>(); } \
    extern "C" std::uint8_t h_rand8_##N() { __VA_ARGS__ r; rng::Rng& b = r; return b.rand<std::uint8_t>(); }
G(std, rng::StdRng)
G(cstd, rng::CstdRng)
#define R(N, C) G(N##_0, C<0>) G(N##_1, C<1>) G(N##_2, C<2>) G(N##_10, C<>)
#if defined(CPU_FLAG_RDRAND)
R(rdrand64, rng::hardware_rng::RdrandRng_64)
R(rdrand32, rng::hardware_rng::RdrandRng_32)
#endif
#if defined(CPU_FLAG_RDSEED)
R(rdseed64, rng::hardware_rng::RdseedRng_64)
R(rdseed32, rng::hardware_rng::RdseedRng_32)
#endif
