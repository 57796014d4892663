/* Ideal BLS group: stand-in for the third-party blst library (not available offline).
 *
 * Points of G1/G2 are represented by a scalar modulo the prime P = 2^61-1:
 *   key(48 bytes)   -> x = first 8 bytes of SHA256(key) mod P        (needs compression flag 0x80)
 *   sum of keys     -> addition mod P
 *   sign(S, msg)    -> (sum of x_i over S) * h(msg) mod P,  h = SHA256(dst||msg) mod P
 * A signature verifies iff it equals that product, i.e. exactly for the set of keys and the
 * message it was made for. That is the (idealised) contract of a BLS aggregate signature.
 */
#ifndef FAKE_BLST_H
#define FAKE_BLST_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
typedef uint8_t byte;
typedef enum {
  BLST_SUCCESS = 0,
  BLST_BAD_ENCODING,
  BLST_POINT_NOT_ON_CURVE,
  BLST_POINT_NOT_IN_GROUP,
  BLST_AGGR_TYPE_MISMATCH,
  BLST_VERIFY_FAIL,
  BLST_PK_IS_INFINITY,
  BLST_BAD_SCALAR
} BLST_ERROR;
typedef struct { uint64_t v[12]; } blst_p1_affine; /* 96 bytes */
typedef struct { uint64_t v[18]; } blst_p1;        /* 144 bytes */
typedef struct { uint64_t v[24]; } blst_p2_affine; /* 192 bytes */
typedef struct { uint64_t v[36]; } blst_p2;
typedef struct blst_opaque blst_pairing;
typedef struct { uint64_t v[72]; } blst_fp12;
BLST_ERROR blst_p1_uncompress(blst_p1_affine* out, const byte in[48]);
BLST_ERROR blst_p2_uncompress(blst_p2_affine* out, const byte in[96]);
void       blst_p1_from_affine(blst_p1* out, const blst_p1_affine* in);
void       blst_p1_to_affine(blst_p1_affine* out, const blst_p1* in);
void       blst_p1_add(blst_p1* out, const blst_p1* a, const blst_p1* b);
void       blst_p1_add_or_double(blst_p1* out, const blst_p1* a, const blst_p1* b);
void       blst_p1_add_affine(blst_p1* out, const blst_p1* a, const blst_p1_affine* b);
void       blst_p1_add_or_double_affine(blst_p1* out, const blst_p1* a, const blst_p1_affine* b);
void       blst_p1s_add(blst_p1* ret, const blst_p1_affine* const points[], size_t npoints);
bool       blst_p1_affine_in_g1(const blst_p1_affine* p);
bool       blst_p1_affine_is_inf(const blst_p1_affine* p);
bool       blst_p1_is_inf(const blst_p1* p);
bool       blst_p2_affine_in_g2(const blst_p2_affine* p);
size_t     blst_pairing_sizeof(void);
void       blst_pairing_init(blst_pairing* ctx, bool hash_or_encode, const byte* DST, size_t DST_len);
BLST_ERROR blst_pairing_chk_n_aggr_pk_in_g1(blst_pairing* ctx, const blst_p1_affine* PK, bool pk_grpchk,
                                            const blst_p2_affine* signature, bool sig_grpchk,
                                            const byte* msg, size_t msg_len, const byte* aug, size_t aug_len);
BLST_ERROR blst_pairing_aggregate_pk_in_g1(blst_pairing* ctx, const blst_p1_affine* PK, const blst_p2_affine* signature,
                                           const byte* msg, size_t msg_len, const byte* aug, size_t aug_len);
void       blst_pairing_commit(blst_pairing* ctx);
bool       blst_pairing_finalverify(const blst_pairing* ctx, const blst_fp12* gtsig);
BLST_ERROR blst_core_verify_pk_in_g1(const blst_p1_affine* pk, const blst_p2_affine* signature, bool hash_or_encode,
                                     const byte* msg, size_t msg_len, const byte* DST, size_t DST_len,
                                     const byte* aug, size_t aug_len);
#endif
