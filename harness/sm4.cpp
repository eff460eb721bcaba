// Entry points over the public SM4 class; analysed, never executed.
#include <gmlib/sm4/sm4.h>
#include <new>
using namespace sm4;
extern "C" void h_sm4_setkey(SM4* c, const std::uint8_t* key, int enc) { c->set_key(key, enc); }
extern "C" void h_sm4_ctor(SM4* c, const std::uint8_t* key, int enc) { new (c) SM4(key, enc); }
extern "C" void h_sm4_new(SM4* c) { new (c) SM4(); }
extern "C" void h_sm4_eb(const SM4* c, std::uint8_t* o, const std::uint8_t* i) { c->encrypt_block(o, i); }
extern "C" void h_sm4_db(const SM4* c, std::uint8_t* o, const std::uint8_t* i) { c->decrypt_block(o, i); }
extern "C" void h_sm4_ebs(const SM4* c, std::uint8_t* o, const std::uint8_t* i, std::size_t n) { c->encrypt_blocks(o, i, n); }
extern "C" void h_sm4_dbs(const SM4* c, std::uint8_t* o, const std::uint8_t* i, std::size_t n) { c->decrypt_blocks(o, i, n); }
extern "C" const std::size_t h_sm4_info[4] = {sizeof(SM4), SM4::BLOCK_SIZE, SM4::USER_KEY_LEN, SM4::PARALLEL_NUM};
extern "C" const int h_sm4_dir[2] = {SM4::ENCRYPTION, SM4::DECRYPTION};
