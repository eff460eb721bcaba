// Entry points over the public AES classes; analysed, never executed.
#include <gmlib/aes/aes.h>
using namespace aes;
#define E(N)                                                                                            \
    extern "C" void h_aes##N##_setkey(AES##N* c, const std::uint8_t* key, int enc) { c->set_key(key, enc); }\
    extern "C" void h_aes##N##_ctor(AES##N* c, const std::uint8_t* key, int enc) { new (c) AES##N(key, enc); } \
    extern "C" void h_aes##N##_new(AES##N* c) { new (c) AES##N(); }                                  \
    extern "C" void h_aes##N##_eb(const AES##N* c, std::uint8_t* o, const std::uint8_t* i) { c->encrypt_block(o, i); } \
    extern "C" void h_aes##N##_db(const AES##N* c, std::uint8_t* o, const std::uint8_t* i) { c->decrypt_block(o, i); } \
    extern "C" void h_aes##N##_ebs(const AES##N* c, std::uint8_t* o, const std::uint8_t* i, std::size_t n) { c->encrypt_blocks(o, i, n); } \
    extern "C" void h_aes##N##_dbs(const AES##N* c, std::uint8_t* o, const std::uint8_t* i, std::size_t n) { c->decrypt_blocks(o, i, n); } \
    extern "C" const std::size_t h_aes##N##_info[4] = {sizeof(AES##N), AES##N::BLOCK_SIZE, AES##N::USER_KEY_LEN, AES##N::PARALLEL_NUM};    \
    extern "C" const int h_aes##N##_dir[2] = {AES##N::ENCRYPTION, AES##N::DECRYPTION};
#include <new>
E(128) E(192) E(256)
