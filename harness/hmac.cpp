// HMAC and hash buffering over an uninterpreted compression function; analysed, never executed.
#include <gmlib/hash_lib/hash.h>
#include <gmlib/hash_lib/hmac.h>
#include <new>
typedef std::uint8_t u8;
extern "C" void mock_reset(void* s, std::size_t bs, std::size_t ds);
extern "C" void mock_blocks(void* s, const u8* in, std::size_t n, std::size_t bs);
extern "C" void mock_last(void* s, u8* d, const u8* in, std::size_t n, std::size_t bs, std::size_t ds);
template <std::size_t BS, std::size_t DS>
class MockHash : public hash_lib::Hash<BS>
{
public:
    static constexpr std::size_t BLOCK_SIZE  = BS;
    static constexpr std::size_t DIGEST_SIZE = DS;
    u8                           s[16];
    MockHash() noexcept { this->reset(); }
    void reset() noexcept { hash_lib::Hash<BS>::reset(); mock_reset(s, BS, DS); }
    void update_blocks(const u8* in, std::size_t n) override { mock_blocks(s, in, n, BS); }
    void final_block(u8* d, const u8* in, std::size_t n) override { mock_last(s, d, in, n, BS, DS); }
};
#define H(N, C)                                                                                         \
    extern "C" void h_##N##_new(C* c) { new (c) C(); }                                                 \
    extern "C" void h_##N##_update(C* c, const u8* in, std::size_t n) { c->update(in, n); }            \
    extern "C" void h_##N##_final(C* c, u8* d) { c->do_final(d); }                                     \
    extern "C" void h_##N##_finaln(C* c, u8* d, const u8* in, std::size_t n) { c->do_final(d, in, n); }
#define ALL(B, D)                                                                                                       \
    typedef MockHash<B, D>                Hs_##B##_##D;                                                                 \
    typedef hash_lib::HMac<Hs_##B##_##D> Hm_##B##_##D;                                                                  \
    H(hash_##B##_##D, Hs_##B##_##D)                                                                                     \
    H(hmac_##B##_##D, Hm_##B##_##D)                                                                                     \
    extern "C" void h_hmac_##B##_##D##_newk(Hm_##B##_##D* c, const u8* k, std::size_t n) { new (c) Hm_##B##_##D(k, n); }   \
    extern "C" void h_hmac_##B##_##D##_setkey(Hm_##B##_##D* c, const u8* k, std::size_t n) { c->set_key(k, n); }        \
    extern "C" const std::size_t h_hm_##B##_##D##_info[4] = {sizeof(Hs_##B##_##D), sizeof(Hm_##B##_##D), B, Hm_##B##_##D::DIGEST_SIZE};
ALL(64, 32)
ALL(128, 64)
ALL(16, 20)
ALL(20, 12)
ALL(8, 8)
