// The named cipher modes are the modes of the cipher they are named after; analysed, never executed.
#include <gmlib/aes/aes_mode.h>
#include <gmlib/sm4/sm4_mode.h>
#include <type_traits>
#define A(NS, C, MODE)                                                                                                     \
    extern "C" const int h_alias_##C##MODE##Encryptor = std::is_base_of<block_cipher_mode::MODE##Encryptor<NS::C>, NS::C##MODE##Encryptor>::value; \
    extern "C" const int h_alias_##C##MODE##Decryptor = std::is_base_of<block_cipher_mode::MODE##Decryptor<NS::C>, NS::C##MODE##Decryptor>::value;
#define ALL(NS, C) A(NS, C, Ecb) A(NS, C, Cbc) A(NS, C, Cfb) A(NS, C, Ofb) A(NS, C, Ctr) A(NS, C, Gcm)
ALL(aes, AES128)
ALL(aes, AES192)
ALL(aes, AES256)
ALL(sm4, SM4)
