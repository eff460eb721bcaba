// Entry points over the public hash classes; analysed, never executed.
#include <gmlib/sm3/sm3.h>
#include <gmlib/ghash/ghash.h>
#include <gmlib/hash_lib/hmac.h>
#include <new>
#define H(N, C)                                                                                      \
    extern "C" void h_##N##_new(C* c) { new (c) C(); }                                              \
    extern "C" void h_##N##_update(C* c, const std::uint8_t* in, std::size_t n) { c->update(in, n); } \
    extern "C" void h_##N##_final(C* c, std::uint8_t* d) { c->do_final(d); }                         \
    extern "C" void h_##N##_finaln(C* c, std::uint8_t* d, const std::uint8_t* in, std::size_t n) { c->do_final(d, in, n); } \
    extern "C" void h_##N##_reset(C* c) { c->reset(); }                                              \
    extern "C" const std::size_t h_##N##_info[3] = {sizeof(C), C::BLOCK_SIZE, C::DIGEST_SIZE};
H(sm3, sm3::SM3)
H(ghash, ghash::GHash)
extern "C" void h_ghash_newk(ghash::GHash* c, const std::uint8_t* h) { new (c) ghash::GHash(h); }
extern "C" void h_ghash_setkey(ghash::GHash* c, const std::uint8_t* h) { c->set_key(h); }
