// SM2 and SM9 objects over an uninterpreted hash and random source; analysed, never executed.
#include <gmlib/hash_lib/hash.h>
#include <gmlib/sm2/sm2.h>
#include <gmlib/sm2/internal/sm2_asn1.h>
#include <gmlib/sm9/sm9.h>
#include <new>
typedef std::uint8_t u8;
extern "C" void mock_reset(void* s, std::size_t bs, std::size_t ds);
extern "C" void mock_blocks(void* s, const u8* in, std::size_t n, std::size_t bs);
extern "C" void mock_last(void* s, u8* d, const u8* in, std::size_t n, std::size_t bs, std::size_t ds);
extern "C" void mock_rng(void* out, std::size_t n);
template <std::size_t BS, std::size_t DS>
class SmHash : public hash_lib::Hash<BS>
{
public:
    static constexpr std::size_t BLOCK_SIZE  = BS;
    static constexpr std::size_t DIGEST_SIZE = DS;
    u8                           s[16];
    SmHash() noexcept { this->reset(); }
    void reset() noexcept { hash_lib::Hash<BS>::reset(); mock_reset(s, BS, DS); }
    void update_blocks(const u8* in, std::size_t n) override { mock_blocks(s, in, n, BS); }
    void final_block(u8* d, const u8* in, std::size_t n) override { mock_last(s, d, in, n, BS, DS); }
};
class SmRng final : public rng::Rng
{
public:
    const char* name() const override { return "mock"; }
    void gen(void* out, std::size_t n) override { mock_rng(out, n); }
};
#define S(N, B, D)                                                                                                              \
    typedef SmHash<B, D> SH##N;                                                                                                 \
    typedef sm2::SM2PublicKey<SH##N> P2##N;                                                                                     \
    typedef sm2::SM2PrivateKey<SH##N> K2##N;                                                                                    \
    typedef sm9::SM9SignMasterPrivateKey<SH##N> M9##N;                                                                          \
    typedef sm9::SM9SignMasterPublicKey<SH##N> P9##N;                                                                           \
    typedef sm9::SM9SignPrivateKey<SH##N> K9##N;                                                                                \
    extern "C" const std::size_t h_sm_##N##_sizes[6] = {sizeof(P2##N), sizeof(K2##N), sizeof(M9##N), sizeof(P9##N), sizeof(K9##N), sizeof(SH##N)}; \
    extern "C" void h_sm2_##N##_pub_new(P2##N* p, const u8* x, const u8* y) { new (p) P2##N(x, y); }                            \
    extern "C" void h_sm2_##N##_pub_set(P2##N* p, const u8* x, const u8* y) { p->set_pub(x, y); }                               \
    extern "C" void h_sm2_##N##_pub_get(const P2##N* p, u8* x, u8* y) { p->get_pub(x, y); }                                     \
    extern "C" bool h_sm2_##N##_verify(const P2##N* p, const u8* sig, const u8* m, std::size_t n, const u8* id, std::size_t il) { return p->verify(sig, m, n, id, il); } \
    extern "C" std::size_t h_sm2_##N##_clen(const u8* m, std::size_t n, sm2::SM2EcPC pc) { return P2##N::ciphertext_len(m, n, pc); } \
    extern "C" void h_sm2_##N##_encrypt(const P2##N* p, u8* c, std::size_t* cl, const u8* m, std::size_t n, sm2::SM2EcPC pc) { SmRng r; p->encrypt(c, cl, m, n, r, pc); } \
    extern "C" void h_sm2_##N##_kencrypt(const K2##N* p, u8* c, std::size_t* cl, const u8* m, std::size_t n, sm2::SM2EcPC pc) { SmRng r; p->encrypt(c, cl, m, n, r, pc); } \
    extern "C" std::size_t h_sm2_##N##_kclen(const u8* m, std::size_t n, sm2::SM2EcPC pc) { return K2##N::ciphertext_len(m, n, pc); } \
    extern "C" void h_sm2_##N##_priv_new(K2##N* p, const u8* k) { new (p) K2##N(k); }                                           \
    extern "C" void h_sm2_##N##_priv_newgen(K2##N* p) { SmRng r; new (p) K2##N(r); }                                            \
    extern "C" void h_sm2_##N##_priv_set(K2##N* p, const u8* k) { p->set_priv(k); }                                             \
    extern "C" void h_sm2_##N##_priv_get(const K2##N* p, u8* k) { p->get_priv(k); }                                             \
    extern "C" void h_sm2_##N##_priv_gen(K2##N* p) { SmRng r; p->gen_priv(r); }                                                 \
    extern "C" const P2##N* h_sm2_##N##_fetch(const K2##N* p) { return &p->fetch_pub(); }                                       \
    extern "C" void h_sm2_##N##_sign(const K2##N* p, u8* sig, const u8* m, std::size_t n, const u8* id, std::size_t il) { SmRng r; p->sign(sig, m, n, r, id, il); } \
    extern "C" void h_sm2_##N##_signdef(const K2##N* p, u8* sig, const u8* m, std::size_t n) { SmRng r; p->sign(sig, m, n, r); } \
    extern "C" bool h_sm2_##N##_kverify(const K2##N* p, const u8* sig, const u8* m, std::size_t n, const u8* id, std::size_t il) { return p->verify(sig, m, n, id, il); } \
    extern "C" std::size_t h_sm2_##N##_plen(const u8* c, std::size_t n) { return K2##N::plaintext_len(c, n); }                   \
    extern "C" void h_sm2_##N##_decrypt(const K2##N* p, u8* m, std::size_t* ml, const u8* c, std::size_t n) { p->decrypt(m, ml, c, n); } \
    extern "C" void h_sm9_##N##_m_new(M9##N* p, const u8* k) { new (p) M9##N(k); }                                              \
    extern "C" void h_sm9_##N##_m_newgen(M9##N* p) { SmRng r; new (p) M9##N(r); }                                               \
    extern "C" void h_sm9_##N##_m_set(M9##N* p, const u8* k) { p->set_priv(k); }                                                \
    extern "C" void h_sm9_##N##_m_get(const M9##N* p, u8* k) { p->get_priv(k); }                                                \
    extern "C" void h_sm9_##N##_m_gen(M9##N* p) { SmRng r; p->gen_priv(r); }                                                    \
    extern "C" void h_sm9_##N##_m_key(const M9##N* p, K9##N* k, const u8* id, std::size_t il, u8 hid) { SmRng r; *k = p->gen_SignPrivateKey(id, il, r, hid); } \
    extern "C" const P9##N* h_sm9_##N##_m_fetch(const M9##N* p) { return &p->fetch_SignPublicKey(); }                            \
    extern "C" void h_sm9_##N##_p_set(P9##N* p, const u8* x, const u8* y) { p->set_pub(x, y); }                                 \
    extern "C" void h_sm9_##N##_p_get(const P9##N* p, u8* x, u8* y) { p->get_pub(x, y); }                                       \
    extern "C" bool h_sm9_##N##_verify(const P9##N* p, const u8* s, std::size_t sl, const u8* m, std::size_t n, const u8* id, std::size_t il, u8 hid) { return p->verify(s, sl, m, n, id, il, hid); } \
    extern "C" void h_sm9_##N##_k_set(K9##N* p, const u8* a, const u8* b, const u8* x, const u8* y) { p->set_priv(a, b, x, y); } \
    extern "C" void h_sm9_##N##_k_get(const K9##N* p, u8* a, u8* b, u8* x, u8* y) { p->get_priv(a, b, x, y); }                   \
    extern "C" const P9##N* h_sm9_##N##_k_fetch(const K9##N* p) { return &p->fetch_pub(); }                                      \
    extern "C" void h_sm9_##N##_sign(const K9##N* p, u8* s, std::size_t* sl, const u8* m, std::size_t n, sm9::SM9EcPC pc) { SmRng r; p->sign(s, sl, m, n, r, pc); } \
    extern "C" bool h_sm9_##N##_kverify(const K9##N* p, const u8* s, std::size_t sl, const u8* m, std::size_t n, const u8* id, std::size_t il, u8 hid) { return p->verify(s, sl, m, n, id, il, hid); }
S(a, 64, 32)
S(b, 64, 20)
