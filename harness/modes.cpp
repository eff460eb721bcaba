// Cipher modes instantiated over an uninterpreted block cipher; analysed, never executed.
#include <gmlib/block_cipher_mode/ecb_mode.h>
#include <gmlib/block_cipher_mode/cbc_mode.h>
#include <gmlib/block_cipher_mode/cfb_mode.h>
#include <gmlib/block_cipher_mode/ofb_mode.h>
#include <gmlib/block_cipher_mode/ctr_mode.h>
#include <gmlib/block_cipher_mode/gcm_mode.h>
#include <new>
typedef std::uint8_t u8;
extern "C" void mock_setkey(void* c, const u8* key, int dir);
extern "C" void mock_blocks(const void* c, u8* out, const u8* in, std::size_t n, std::size_t bs, int dir);
template <std::size_t BS, std::size_t PAR>
struct Mock
{
    static constexpr int         ENCRYPTION   = 1;
    static constexpr int         DECRYPTION   = 0;
    static constexpr std::size_t BLOCK_SIZE   = BS;
    static constexpr std::size_t USER_KEY_LEN = 16;
    static constexpr std::size_t PARALLEL_NUM = PAR;
    u8                           key[17];
    void set_key(const u8* k, int dir) noexcept { mock_setkey(key, k, dir); }
    void encrypt_block(u8* o, const u8* i) const noexcept { mock_blocks(key, o, i, 1, BS, 1); }
    void decrypt_block(u8* o, const u8* i) const noexcept { mock_blocks(key, o, i, 1, BS, 0); }
    void encrypt_blocks(u8* o, const u8* i, std::size_t n) const noexcept { mock_blocks(key, o, i, n, BS, 1); }
    void decrypt_blocks(u8* o, const u8* i, std::size_t n) const noexcept { mock_blocks(key, o, i, n, BS, 0); }
};
using namespace block_cipher_mode;
#define M(NAME, T)                                                                                                       \
    extern "C" void h_##NAME##_new(T* c) { new (c) T(); }                                                               \
    extern "C" void h_##NAME##_update(T* c, u8* o, std::size_t* ol, const u8* i, std::size_t n) { c->update(o, ol, i, n); }   \
    extern "C" void h_##NAME##_final(T* c, u8* o, std::size_t* ol) { c->do_final(o, ol); }                              \
    extern "C" void h_##NAME##_finaln(T* c, u8* o, std::size_t* ol, const u8* i, std::size_t n) { c->do_final(o, ol, i, n); } \
    extern "C" const std::size_t h_##NAME##_info[2] = {sizeof(T), T::BLOCK_SIZE};
#define MI(NAME, T)                                                                                                      \
    M(NAME, T)                                                                                                           \
    extern "C" void h_##NAME##_ctor(T* c, const u8* k, const u8* iv) { new (c) T(k, iv); }                              \
    extern "C" void h_##NAME##_init(T* c, const u8* k, const u8* iv) { c->init(k, iv); }                                \
    extern "C" void h_##NAME##_reset(T* c, const u8* iv) { c->reset(iv); }
#define ME(NAME, T)                                                                                                      \
    M(NAME, T)                                                                                                           \
    extern "C" void h_##NAME##_ctor(T* c, const u8* k, const u8*) { new (c) T(k); }                                     \
    extern "C" void h_##NAME##_init(T* c, const u8* k, const u8*) { c->init(k); }                                       \
    extern "C" void h_##NAME##_reset(T* c, const u8*) { c->reset(); }
#define ALL(B, P)                                              \
    typedef Mock<B, P> Mk_##B##_##P;                           \
    ME(ecbe_##B##_##P, EcbEncryptor<Mk_##B##_##P>)          \
    ME(ecbd_##B##_##P, EcbDecryptor<Mk_##B##_##P>)          \
    MI(cbce_##B##_##P, CbcEncryptor<Mk_##B##_##P>)          \
    MI(cbcd_##B##_##P, CbcDecryptor<Mk_##B##_##P>)          \
    MI(cfbe_##B##_##P, CfbEncryptor<Mk_##B##_##P>)          \
    MI(cfbd_##B##_##P, CfbDecryptor<Mk_##B##_##P>)          \
    MI(ofbe_##B##_##P, OfbEncryptor<Mk_##B##_##P>)          \
    MI(ofbd_##B##_##P, OfbDecryptor<Mk_##B##_##P>)          \
    MI(ctre_##B##_##P, CtrEncryptor<Mk_##B##_##P>)          \
    MI(ctrd_##B##_##P, CtrDecryptor<Mk_##B##_##P>)
ALL(16, 1)
ALL(16, 4)
ALL(16, 16)
ALL(8, 2)
ALL(12, 3)
#define GCM(NAME, T)                                                                                                      \
    M(NAME, T)                                                                                                            \
    extern "C" void h_##NAME##_ctor(T* c, const u8* k, const u8* iv, std::size_t il, const u8* a, std::size_t al) { new (c) T(k, iv, il, a, al); } \
    extern "C" void h_##NAME##_init(T* c, const u8* k, const u8* iv, std::size_t il, const u8* a, std::size_t al) { c->init(k, iv, il, a, al); }
#define G(P)                                         \
    GCM(gcme_##P, GcmEncryptor<Mk_16_##P>)    \
    GCM(gcmd_##P, GcmDecryptor<Mk_16_##P>)    \
    extern "C" void h_gcme_##P##_gettag(GcmEncryptor<Mk_16_##P>* c, u8* t) { c->get_tag(t); } \
    extern "C" void h_gcmd_##P##_settag(GcmDecryptor<Mk_16_##P>* c, const u8* t) { c->set_tag(t); }
G(1)
G(4)
G(16)
