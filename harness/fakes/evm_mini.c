// A small interpreter in place of evmone (which is not available offline): the instructions used by the programs of Call.tla, without gas.
#include "evmone_c_wrapper.h"
#include "bytes.h"
#include "crypto.h"
#include "precompiles.h"
#include <string.h>
typedef struct { uint8_t b[32]; } w_t;
static int live = 0; // results not released yet
int        evm_mini_live(void) { return live; }
void*      evmone_create_executor() { return malloc(1); }
void       evmone_destroy_executor(void* e) { free(e); }
void       evmone_release_result(evmone_result* r) {
  if (r->release_callback) live--, free(r->release_context);
  r->output_data = NULL, r->output_size = 0, r->release_callback = NULL, r->release_context = NULL;
}
static uint64_t low(w_t* w) {
  uint64_t r = 0;
  for (int i = 0; i < 24; i++)
    if (w->b[i]) return UINT64_MAX;
  for (int i = 24; i < 32; i++) r = r << 8 | w->b[i];
  return r;
}
static w_t num(uint64_t v) {
  w_t w = {0};
  for (int i = 31; i >= 24; i--, v >>= 8) w.b[i] = v;
  return w;
}
static bool zero(w_t* w) {
  for (int i = 0; i < 32; i++)
    if (w->b[i]) return false;
  return true;
}
#define MEM 16384
static evmone_result done(int status, const uint8_t* out, size_t len, int64_t gas) {
  evmone_result r = {.status_code = status, .gas_left = status && status != 2 ? 0 : gas};
  uint8_t*      d = malloc(len ? len : 1);
  if (len) memcpy(d, out, len);
  r.output_data = len ? d : NULL, r.output_size = len, r.release_callback = (void*) 1, r.release_context = d;
  live++;
  return r;
}
evmone_result evmone_execute(void* ex, const evmone_host_interface* h, void* hc, int rev, const evmone_message* msg, const uint8_t* code, size_t n) {
  static __thread int depth;
  w_t                 st[64];
  int                 sp  = 0;
  uint8_t*            mem = calloc(1, MEM);
  evmone_result       r;
#define NEED(k)                                        \
  if (sp < (k)) { r = done(7, NULL, 0, 0); goto end; } \
  if (sp > 60) { r = done(6, NULL, 0, 0); goto end; }
#define RANGE(o, l) \
  if ((o) > MEM || (l) > MEM || (o) + (l) > MEM) { r = done(3, NULL, 0, 0); goto end; }
#define A(i)  st[sp - 1 - (i)]
#define DEST(a, w) memcpy((a).bytes, (w).b + 12, 20)
  uint8_t* rd = NULL;
  size_t   rl = 0;
  if (++depth > 60) { r = done(10, NULL, 0, 0); goto end; }
  for (size_t pc = 0; pc < n; pc++) {
    uint8_t op = code[pc];
    if (op >= 0x5f && op <= 0x7f) { // PUSH
      NEED(0)
      int k = op - 0x5f;
      w_t w = {0};
      for (int i = 0; i < k; i++) w.b[32 - k + i] = pc + 1 + i < n ? code[pc + 1 + i] : 0;
      st[sp++] = w, pc += k;
      continue;
    }
    if (op >= 0x80 && op <= 0x8f) {
      NEED(op - 0x7f)
      st[sp] = A(op - 0x80), sp++;
      continue;
    }
    evmc_address a;
    switch (op) {
      case 0x00: r = done(0, NULL, 0, msg->gas); goto end;
      case 0x14: NEED(2) A(1) = num(!memcmp(&A(0), &A(1), 32)), sp--; break; // EQ
      case 0x15: NEED(1) A(0) = num(zero(&A(0))); break;                      // ISZERO
      case 0x20: {                                                            // KECCAK256
        NEED(2)
        uint64_t o = low(&A(0)), l = low(&A(1));
        RANGE(o, l)
        bytes32_t x;
        keccak(bytes(mem + o, l), x), memcpy(A(1).b, x, 32), sp--;
        break;
      }
      case 0x30: { NEED(0) w_t w = {0}; memcpy(w.b + 12, msg->destination.bytes, 20), st[sp++] = w; break; }
      case 0x33: { NEED(0) w_t w = {0}; memcpy(w.b + 12, msg->sender.bytes, 20), st[sp++] = w; break; }
      case 0x34: { NEED(0) w_t w; memcpy(w.b, msg->value.bytes, 32), st[sp++] = w; break; }
      case 0x31: { NEED(1) DEST(a, A(0)); evmc_bytes32 x = h->get_balance(hc, &a); memcpy(A(0).b, x.bytes, 32); break; }
      case 0x3b: { NEED(1) DEST(a, A(0)); A(0) = num(h->get_code_size(hc, &a)); break; }
      case 0x3f: { NEED(1) DEST(a, A(0)); evmc_bytes32 x = h->get_code_hash(hc, &a); memcpy(A(0).b, x.bytes, 32); break; }
      case 0x3c: { // EXTCODECOPY
        NEED(4)
        DEST(a, A(0));
        uint64_t m = low(&A(1)), o = low(&A(2)), l = low(&A(3));
        RANGE(m, l)
        size_t got = h->copy_code(hc, &a, o, mem + m, l);
        if (got > l) abort();
        memset(mem + m + got, 0, l - got), sp -= 4;
        break;
      }
      case 0x35: { // CALLDATALOAD
        NEED(1)
        uint64_t o = low(&A(0));
        w_t      w = {0};
        for (int i = 0; i < 32; i++)
          if (o < msg->input_size && o + i < msg->input_size) w.b[i] = msg->input_data[o + i];
        A(0) = w;
        break;
      }
      case 0x36: NEED(0) st[sp++] = num(msg->input_size); break;
      case 0x3d: NEED(0) st[sp++] = num(rl); break;
      case 0x42: case 0x43: case 0x45: case 0x48: NEED(0) h->get_tx_context(hc); st[sp++] = num(0); break; // (the wrapper returns an empty context)
      case 0x50: NEED(1) sp--; break;
      case 0x52: { NEED(2) uint64_t o = low(&A(0)); RANGE(o, 32) memcpy(mem + o, A(1).b, 32), sp -= 2; break; }
      case 0x51: { NEED(1) uint64_t o = low(&A(0)); RANGE(o, 32) memcpy(A(0).b, mem + o, 32); break; }
      case 0x54: { NEED(1) evmc_bytes32 k, x; memcpy(k.bytes, A(0).b, 32); h->access_storage(hc, &msg->destination, &k); x = h->get_storage(hc, &msg->destination, &k); memcpy(A(0).b, x.bytes, 32); break; }
      case 0x55: { NEED(2) if (msg->is_static) { r = done(11, NULL, 0, 0); goto end; } evmc_bytes32 k, x; memcpy(k.bytes, A(0).b, 32), memcpy(x.bytes, A(1).b, 32); h->set_storage(hc, &msg->destination, &k, &x); sp -= 2; break; }
      case 0x57: { // JUMPI
        NEED(2)
        uint64_t d = low(&A(0));
        bool     c = !zero(&A(1));
        sp -= 2;
        if (c) {
          if (d >= n || code[d] != 0x5b) { r = done(8, NULL, 0, 0); goto end; }
          pc = d;
        }
        break;
      }
      case 0x5a: NEED(0) st[sp++] = num(msg->gas); break;
      case 0x5b: break;
      case 0xa0: case 0xa1: case 0xa2: case 0xa3: case 0xa4: { // LOG
        int t = op - 0xa0;
        NEED(2 + t)
        if (msg->is_static) { r = done(11, NULL, 0, 0); goto end; }
        uint64_t o = low(&A(0)), l = low(&A(1));
        RANGE(o, l)
        evmc_bytes32 tp[4];
        for (int i = 0; i < t; i++) memcpy(tp[i].bytes, A(2 + i).b, 32);
        h->emit_log(hc, &msg->destination, mem + o, l, tp, t), sp -= 2 + t;
        break;
      }
      case 0xf1: case 0xf2: case 0xf4: case 0xfa: { // CALL, CALLCODE, DELEGATECALL, STATICCALL
        int v = op == 0xf1 || op == 0xf2;
        NEED(6 + v)
        w_t val = {0};
        if (v) val = A(2);
        uint64_t i = low(&A(2 + v)), il = low(&A(3 + v)), o = low(&A(4 + v)), ol = low(&A(5 + v));
        RANGE(i, il)
        RANGE(o, ol)
        evmone_message m = {0};
        DEST(a, A(1));
        sp -= 6 + v;
        if (op == 0xf1 && msg->is_static && !zero(&val)) { r = done(11, NULL, 0, 0); goto end; }
        m.kind = op == 0xf4 ? EVMONE_DELEGATECALL : op == 0xf2 ? EVMONE_CALLCODE : EVMONE_CALL;
        m.is_static = msg->is_static || op == 0xfa, m.depth = msg->depth + 1, m.gas = msg->gas, m.code_address = a;
        m.destination = op == 0xf4 || op == 0xf2 ? msg->destination : a, m.sender = op == 0xf4 ? msg->sender : msg->destination;
        if (op == 0xf4) m.value = msg->value; else memcpy(m.value.bytes, val.b, 32);
        uint8_t* in = malloc(il ? il : 1);
        memcpy(in, mem + i, il), m.input_data = in, m.input_size = il;
        h->access_account(hc, &a);
        evmone_result cr = {0};
        h->call(hc, &m, NULL, 0, &cr);
        free(in), free(rd);
        rl = cr.output_size, rd = malloc(rl ? rl : 1);
        if (rl) memcpy(rd, cr.output_data, rl), memcpy(mem + o, rd, rl < ol ? rl : ol);
        st[sp++] = num(cr.status_code == 0);
        break;
      }
      case 0xf3: case 0xfd: { // RETURN, REVERT
        NEED(2)
        uint64_t o = low(&A(0)), l = low(&A(1));
        RANGE(o, l)
        r = done(op == 0xf3 ? 0 : 2, mem + o, l, msg->gas);
        goto end;
      }
      default: r = done(4, NULL, 0, 0); goto end;
    }
  }
  r = done(0, NULL, 0, msg->gas);
end:
  depth--;
  free(mem), free(rd);
  return r;
}
// identity and sha256 only, the other precompiled contracts need libraries that are not available
pre_result_t eth_execute_precompile(const uint8_t* address, const bytes_t input, buffer_t* output, uint64_t* gas_used) {
  *gas_used = 0;
  if (address[19] == 4) { buffer_append(output, input); return PRE_SUCCESS; }
  if (address[19] == 2) {
    bytes32_t h;
    sha256(input, h);
    buffer_append(output, bytes(h, 32));
    return PRE_SUCCESS;
  }
  return PRE_INVALID_ADDRESS;
}
