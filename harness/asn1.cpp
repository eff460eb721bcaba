// largest encoded lengths: constexpr functions of the headers given addresses
#include <gmlib/asn1/asn1.h>
#include <gmlib/sm2/internal/sm2_asn1.h>
#define M1(n, N) extern "C" std::size_t h_max_##n(std::size_t v) { return asn1::ASN1_ENCODE_##N##_MAX_OUTL(v); }
#define M0(n, E) extern "C" std::size_t h_max_##n(std::size_t) { return E; }
M1(tlv, TLV)
M1(integer, INTEGER)
M1(bit_string, BIT_STRING)
M1(octet_string, OCTET_STRING)
M1(sequence, SEQUENCE)
M1(set, SET)
M0(boolean, asn1::ASN1_ENCODE_BOOLEAN_MAX_OUTL())
M0(private_key, sm2::internal::SM2_PRIVATE_KEY_ASN1_ENCODE_MAX_OUTL())
M0(public_key, sm2::internal::SM2_PUBLIC_KEY_ASN1_ENCODE_MAX_OUTL())
M0(signature, sm2::internal::SM2_SIGNATURE_ASN1_ENCODE_MAX_OUTL())
