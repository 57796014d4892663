/* 256-bit integer arithmetic behind libs/intx/intx_c_api.h (big endian), on GMP.
 * Stand-in for the third-party intx library, which is not available offline. */
#include "intx_c_api.h"
#include <gmp.h>
#include <string.h>
static void ld(mpz_t z, const intx_uint256_t* v) { mpz_import(z, 32, 1, 1, 1, 0, v->bytes); }
static void st(intx_uint256_t* r, const mpz_t z) {
  mpz_t t; mpz_init(t); mpz_fdiv_r_2exp(t, z, 256);
  memset(r->bytes, 0, 32);
  size_t n = (mpz_sizeinbase(t, 2) + 7) / 8;
  if (mpz_sgn(t)) mpz_export(r->bytes + 32 - n, NULL, 1, 1, 1, 0, t);
  mpz_clear(t);
}
void intx_init(intx_uint256_t* v) { memset(v->bytes, 0, 32); }
void intx_init_value(intx_uint256_t* v, unsigned long long x) { memset(v->bytes, 0, 32); for (int i = 0; i < 8; i++) v->bytes[31 - i] = (x >> (8 * i)) & 0xff; }
int  intx_from_string(intx_uint256_t* v, const char* s, int base) { mpz_t z; mpz_init(z); if (base == 16 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) s += 2; int ok = mpz_set_str(z, s, base) == 0; if (!ok) mpz_set_ui(z, 0); st(v, z); mpz_clear(z); return ok; }
void intx_to_string(const intx_uint256_t* v, char* o, int l, int base) { mpz_t z; mpz_init(z); ld(z, v); char* s = mpz_get_str(NULL, base, z); strncpy(o, s, l - 1); o[l - 1] = 0; mpz_clear(z); }
#define BIN(name, op) void name(intx_uint256_t* r, const intx_uint256_t* a, const intx_uint256_t* b) { mpz_t x, y; mpz_inits(x, y, NULL); ld(x, a); ld(y, b); op; st(r, x); mpz_clears(x, y, NULL); }
BIN(intx_add, mpz_add(x, x, y))
BIN(intx_sub, mpz_sub(x, x, y))
BIN(intx_mul, mpz_mul(x, x, y))
BIN(intx_div, if (mpz_sgn(y)) mpz_fdiv_q(x, x, y); else mpz_set_si(x, -1))
BIN(intx_mod, if (mpz_sgn(y)) mpz_fdiv_r(x, x, y); else mpz_set_ui(x, 0))
BIN(intx_and, mpz_and(x, x, y))
BIN(intx_or, mpz_ior(x, x, y))
BIN(intx_xor, mpz_xor(x, x, y))
void intx_not(intx_uint256_t* r, const intx_uint256_t* a) { for (int i = 0; i < 32; i++) r->bytes[i] = ~a->bytes[i]; }
void intx_shl(intx_uint256_t* r, const intx_uint256_t* a, unsigned int s) { mpz_t x; mpz_init(x); ld(x, a); mpz_mul_2exp(x, x, s); st(r, x); mpz_clear(x); }
void intx_shr(intx_uint256_t* r, const intx_uint256_t* a, unsigned int s) { mpz_t x; mpz_init(x); ld(x, a); mpz_fdiv_q_2exp(x, x, s); st(r, x); mpz_clear(x); }
static int cmp(const intx_uint256_t* a, const intx_uint256_t* b) { return memcmp(a->bytes, b->bytes, 32); }
int intx_eq(const intx_uint256_t* a, const intx_uint256_t* b) { return cmp(a, b) == 0; }
int intx_lt(const intx_uint256_t* a, const intx_uint256_t* b) { return cmp(a, b) < 0; }
int intx_gt(const intx_uint256_t* a, const intx_uint256_t* b) { return cmp(a, b) > 0; }
int intx_lte(const intx_uint256_t* a, const intx_uint256_t* b) { return cmp(a, b) <= 0; }
int intx_gte(const intx_uint256_t* a, const intx_uint256_t* b) { return cmp(a, b) >= 0; }
int intx_is_zero(const intx_uint256_t* v) { for (int i = 0; i < 32; i++) if (v->bytes[i]) return 0; return 1; }
void intx_exp(intx_uint256_t* r, const intx_uint256_t* a, const intx_uint256_t* e) { mpz_t x, y, m; mpz_inits(x, y, m, NULL); ld(x, a); ld(y, e); mpz_ui_pow_ui(m, 2, 256); mpz_powm(x, x, y, m); st(r, x); mpz_clears(x, y, m, NULL); }
void intx_modexp(intx_uint256_t* r, const intx_uint256_t* a, const intx_uint256_t* e, const intx_uint256_t* mod) { mpz_t x, y, m; mpz_inits(x, y, m, NULL); ld(x, a); ld(y, e); ld(m, mod); if (mpz_sgn(m)) mpz_powm(x, x, y, m); else mpz_set_ui(x, 0); st(r, x); mpz_clears(x, y, m, NULL); }
#define MODOP(name, op) void name(intx_uint256_t* r, const intx_uint256_t* a, const intx_uint256_t* b, const intx_uint256_t* mod) { mpz_t x, y, m; mpz_inits(x, y, m, NULL); ld(x, a); ld(y, b); ld(m, mod); op; if (mpz_sgn(m)) mpz_fdiv_r(x, x, m); st(r, x); mpz_clears(x, y, m, NULL); }
MODOP(intx_add_mod, mpz_add(x, x, y))
MODOP(intx_sub_mod, mpz_sub(x, x, y))
MODOP(intx_mul_mod, mpz_mul(x, x, y))
void intx_from_bytes(intx_uint256_t* r, const bytes_t b) { memset(r->bytes, 0, 32); if (b.len <= 32) memcpy(r->bytes + 32 - b.len, b.data, b.len); else memcpy(r->bytes, b.data + (b.len - 32), 32); }
