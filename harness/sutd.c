/* Driver process around the real colibri-stateless code.
 *
 * Line protocol on stdin/stdout: a command with space separated tokens, answered by one JSON line.
 * Strings and byte strings are hex ("-" is the empty string / absent value).
 * "begin" forks: the child answers until "end", so that static state (caches) and crashes stay in one episode.
 */
#define _GNU_SOURCE
#include "colibri.c" /* bindings/colibri.c: the public interface (and its private context type) */
#include "crypto.h"
#include "json.h"
#include "patricia.h"
#include "rlp.h"
#include "ssz.h"
#include "state.h"
#include "witness.h"
#include "eth_verify.h"
#include "eth_account.h"
#include "eth_tx.h"
#include "beacon.h"
#include "tx_cache.h"
#include "logs_cache.h"
#include <ctype.h>
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/time.h>
#include <time.h>
#include <sys/wait.h>
#include <unistd.h>

/* ---------------------------------------------------------------- controllable clock */
static uint64_t fake_ms = 0; /* 0: real clock */
int gettimeofday(struct timeval* restrict tv, void* restrict tz) {
  (void) tz;
  if (fake_ms) { tv->tv_sec = fake_ms / 1000; tv->tv_usec = (fake_ms % 1000) * 1000; return 0; }
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}

/* ---------------------------------------------------------------- output buffer */
static char*  out;
static size_t out_len, out_cap;
static void   o_raw(const char* s, size_t n) {
  if (out_len + n + 1 > out_cap) { out_cap = (out_len + n + 1) * 2 + 1024; out = realloc(out, out_cap); }
  memcpy(out + out_len, s, n); out_len += n; out[out_len] = 0;
}
static void o(const char* fmt, ...) {
  char tmp[4096]; va_list a; va_start(a, fmt); int n = vsnprintf(tmp, sizeof(tmp), fmt, a); va_end(a);
  if (n > (int) sizeof(tmp) - 1) n = sizeof(tmp) - 1;
  o_raw(tmp, n);
}
static void o_hex(const uint8_t* d, size_t n) {
  static const char* hx = "0123456789abcdef";
  for (size_t i = 0; i < n; i++) { char c[2] = {hx[d[i] >> 4], hx[d[i] & 15]}; o_raw(c, 2); }
}
static void o_str(const char* s) { /* JSON string */
  o_raw("\"", 1);
  for (; s && *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') { o_raw("\\", 1); o_raw((char*) &c, 1); }
    else if (c < 0x20 || c > 0x7e) o("\\u%04x", c);
    else o_raw((char*) &c, 1);
  }
  o_raw("\"", 1);
}
static void flush_out(void) {
  o_raw("\n", 1);
  size_t p = 0;
  while (p < out_len) { ssize_t w = write(1, out + p, out_len - p); if (w <= 0) _exit(3); p += w; }
  out_len = 0;
}

/* ---------------------------------------------------------------- input */
static char*  line;
static size_t line_cap;
static char   rb[65536];
static size_t rb_n, rb_p;
static int    rdline(void) {
  size_t n = 0;
  for (;;) {
    if (rb_p == rb_n) { ssize_t r = read(0, rb, sizeof(rb)); if (r <= 0) return 0; rb_n = r; rb_p = 0; }
    char* e = memchr(rb + rb_p, '\n', rb_n - rb_p);
    size_t k = (e ? (size_t) (e - (rb + rb_p)) : rb_n - rb_p);
    if (n + k + 1 > line_cap) { line_cap = (n + k + 1) * 2; line = realloc(line, line_cap); }
    memcpy(line + n, rb + rb_p, k); n += k; rb_p += k;
    if (e) { rb_p++; line[n] = 0; return 1; }
  }
}
#define MAXTOK 128
static char* tok[MAXTOK];
static int   ntok;
static void  split(void) { ntok = 0; for (char* t = strtok(line, " "); t && ntok < MAXTOK; t = strtok(NULL, " ")) tok[ntok++] = t; }
static bytes_t unhex(const char* s) { /* malloced exactly: ASan sees overreads */
  if (!s || !strcmp(s, "-")) return NULL_BYTES;
  size_t n = strlen(s) / 2; uint8_t* d = malloc(n ? n : 1);
  for (size_t i = 0; i < n; i++) { unsigned v; sscanf(s + 2 * i, "%2x", &v); d[i] = v; }
  return bytes(d, n);
}
static int hv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static bytes_t unhexf(const char* s) {
  if (!s || !strcmp(s, "-")) return NULL_BYTES;
  size_t n = strlen(s) / 2; uint8_t* d = malloc(n ? n : 1);
  for (size_t i = 0; i < n; i++) d[i] = (hv(s[2 * i]) << 4) | hv(s[2 * i + 1]);
  return bytes(d, n);
}
static char* unstr(const char* s) { bytes_t b = unhexf(s); char* r = malloc(b.len + 1); if (b.len) memcpy(r, b.data, b.len); r[b.len] = 0; free(b.data); return r; }
static bytes_t T(int i) { return i < ntok ? unhexf(tok[i]) : NULL_BYTES; }
static uint64_t N(int i) { return i < ntok ? strtoull(tok[i], NULL, 0) : 0; }

/* ---------------------------------------------------------------- in-memory storage plugin with fault injection */
typedef struct kv { char* k; bytes_t v; struct kv* next; } kv_t;
static kv_t* kvs;
static long  writes_left = -1; /* -1: no crash. 0: power is gone: further writes are lost */
static long  n_writes;
static char* wlog;
static size_t wlog_len;
static void wlog_add(char op, const char* k) { size_t l = strlen(k); wlog = realloc(wlog, wlog_len + l + 4); wlog[wlog_len] = op; memcpy(wlog + wlog_len + 1, k, l); wlog_len += l + 1; wlog[wlog_len++] = ' '; wlog[wlog_len] = 0; }
static jmp_buf power_gone;
static int  soft_fail; /* writes are lost, but the process goes on (full disk, read-only storage) */
static bool power(void) { if (writes_left == 0) { if (soft_fail) return false; longjmp(power_gone, 1); } if (writes_left > 0) writes_left--; n_writes++; return true; }
static bool m_get(char* k, buffer_t* b) {
  for (kv_t* e = kvs; e; e = e->next) if (!strcmp(e->k, k)) { b->data.len = 0; buffer_append(b, e->v); return true; }
  return false;
}
static void m_put(char* k, bytes_t v) {
  for (kv_t* e = kvs; e; e = e->next) if (!strcmp(e->k, k)) { free(e->v.data); e->v = bytes_dup(v); return; }
  kv_t* e = calloc(1, sizeof(kv_t)); e->k = strdup(k); e->v = bytes_dup(v); e->next = kvs; kvs = e;
}
static void m_rem(char* k) {
  for (kv_t** p = &kvs; *p; p = &(*p)->next) if (!strcmp((*p)->k, k)) { kv_t* e = *p; *p = e->next; free(e->k); free(e->v.data); free(e); return; }
}
static void m_set(char* k, bytes_t v) { if (power()) { wlog_add('+', k); m_put(k, v); } }
static void m_del(char* k) { if (power()) { wlog_add('-', k); m_rem(k); } }
static void install_storage(uint32_t max) { storage_plugin_t p = {.get = m_get, .set = m_set, .del = m_del, .max_sync_states = max}; c4_set_storage_config(&p); }

/* parallel_for plugin: sequential, reversed order, or real threads are all allowed by its contract */
static void pf_rev(int b, int e, c4_parallel_for_body_fn f, void* c) { for (int i = e - 1; i >= b; i--) f(i, c); }

/* ---------------------------------------------------------------- contexts */
#define SLOTS 32
static void* vctx[SLOTS];
static void* pctx[SLOTS];
extern void hooks_units(void);

static void req_list(c4_state_t* st) {
  o(",\"all\":[");
  int i = 0;
  for (data_request_t* r = st->requests; r; r = r->next, i++) {
    if (i) o(",");
    o("{\"ptr\":%llu,\"type\":%d,\"enc\":%d,\"method\":%d,\"chain\":%llu,\"pending\":%s,\"has_resp\":%s,\"has_err\":%s,\"ttl\":%u,\"excl\":%u,\"url\":", (unsigned long long) (uintptr_t) r, r->type, r->encoding, r->method, (unsigned long long) r->chain_id,
      c4_state_is_pending(r) ? "true" : "false", r->response.data ? "true" : "false", r->error ? "true" : "false", r->ttl, r->node_exclude_mask);
    o_str(r->url ? r->url : "");
    char* mk = c4_req_mockname(r); o(",\"mock\":"); o_str(mk ? mk : ""); free(mk);
    o(",\"payload\":\""); o_hex(r->payload.data, r->payload.data ? r->payload.len : 0);
    o("\",\"id\":\""); o_hex(r->id, 32); o("\"}");
  }
  o("]");
}

typedef void (*cmd_fn)(void);
static void c_ping(void) { o("{\"ok\":1,\"pid\":%d}", getpid()); }
static void c_time(void) { fake_ms = N(1); o("{\"ok\":1}"); }
static void c_max(void) { install_storage(N(1)); o("{\"ok\":1}"); }
static void c_pf(void) { c4_set_parallel_for(N(1) ? pf_rev : NULL); o("{\"ok\":1}"); }
static void c_crash(void) { writes_left = strtol(tok[1], NULL, 0); n_writes = 0; soft_fail = N(2); o("{\"ok\":1}"); }
static void c_sset(void) { char* k = unstr(tok[1]); bytes_t v = T(2); m_put(k, v); free(k); free(v.data); o("{\"ok\":1}"); }
static void c_sget(void) { char* k = unstr(tok[1]); kv_t* e = kvs; while (e && strcmp(e->k, k)) e = e->next; if (e) { o("{\"v\":\""); o_hex(e->v.data, e->v.len); o("\"}"); } else o("{\"v\":null}"); free(k); }
static void c_sdel(void) { char* k = unstr(tok[1]); m_rem(k); free(k); o("{\"ok\":1}"); }
static void c_sclear(void) { while (kvs) m_rem(kvs->k); o("{\"ok\":1}"); }
static void c_sdump(void) {
  o("{\"n\":%ld,\"log\":", n_writes); o_str(wlog ? wlog : ""); o(",\"kv\":{");
  for (kv_t* e = kvs; e; e = e->next) {
    if (e != kvs) o(",");
    o_str(e->k); o(":\"");
    o_hex(e->v.data, e->v.len); o("\"");
  }
  o("}}");
  free(wlog); wlog = NULL; wlog_len = 0;
}
static void c_swap(void) { /* reports the write log and resets it */
  o("{\"n\":%ld,\"log\":", n_writes); o_str(wlog ? wlog : ""); o("}");
  free(wlog); wlog = NULL; wlog_len = 0;
}

static void v_status(int s) {
  char* r = c4_verify_execute_json_status(vctx[s]);
  verify_ctx_t* c = &((c4_verify_ctx_t*) vctx[s])->ctx;
  for (char* c = r; *c; c++) if (*c == '\n' || *c == '\r') *c = ' '; /* pretty printed results */
  o("{\"st\":"); o_raw(r, strlen(r));
  o(",\"ok\":%s", c->success ? "true" : "false");
  req_list(&c->state);
  o("}");
  free(r);
}
/* vnew slot proof method args chain checkpoint witness */
static void c_vnew(void) {
  int s = N(1); bytes_t proof = T(2); char* m = unstr(tok[3]); char* a = unstr(tok[4]);
  char* cp = ntok > 6 && strcmp(tok[6], "-") ? unstr(tok[6]) : NULL;
  vctx[s] = c4_verify_create_ctx(proof, m, a, N(5), cp);
  if (ntok > 7 && strcmp(tok[7], "-")) ((c4_verify_ctx_t*) vctx[s])->ctx.witness_keys = T(7);
  verify_ctx_t* c = &((c4_verify_ctx_t*) vctx[s])->ctx;
  o("{\"ok\":1,\"err\":"); o_str(c->state.error ? c->state.error : ""); o("}");
  free(proof.data); free(m); free(a); free(cp);
}
static void c_vstep(void) { v_status(N(1)); }
static void c_vfree(void) { int s = N(1); if (vctx[s]) c4_verify_free_ctx(vctx[s]); vctx[s] = NULL; o("{\"ok\":1}"); }
static void c_resp(void) { /* resp ptr hex [node] */
  bytes_t d = T(2);
  c4_req_set_response((void*) (uintptr_t) N(1), d, N(3));
  free(d.data); o("{\"ok\":1}");
}
static void c_rerr(void) { char* e = unstr(tok[2]); c4_req_set_error((void*) (uintptr_t) N(1), e, N(3)); free(e); o("{\"ok\":1}"); }

static void p_status(int s) {
  prover_ctx_t* c = (prover_ctx_t*) pctx[s];
  c4_status_t st = c4_prover_execute(c);
  o("{\"status\":%d,\"err\":", st); o_str(c->state.error ? c->state.error : "");
  o(",\"flags\":%u,\"proof\":\"", c->flags); o_hex(c->proof.data, c->proof.data ? c->proof.len : 0); o("\"");
  req_list(&c->state);
  o("}");
}
/* pnew slot method params chain flags client_state witness_key */
static void c_pnew(void) {
  int s = N(1); char* m = unstr(tok[2]); char* a = unstr(tok[3]);
  pctx[s] = c4_create_prover_ctx(m, a, N(4), N(5));
  if (ntok > 6 && strcmp(tok[6], "-")) ((prover_ctx_t*) pctx[s])->client_state = T(6);
  if (ntok > 7 && strcmp(tok[7], "-")) ((prover_ctx_t*) pctx[s])->witness_key = T(7);
  free(m); free(a); o("{\"ok\":1}");
}
static void c_pstep(void) { p_status(N(1)); }
static void c_pjson(void) { char* r = c4_prover_execute_json_status(pctx[N(1)]); o("{\"t\":\""); o_hex((uint8_t*) r, strlen(r)); o("\"}"); free(r); }
static void c_pproof(void) { bytes_t b = c4_prover_get_proof(pctx[N(1)]); o("{\"p\":\""); o_hex(b.data, b.data ? b.len : 0); o("\"}"); }
static void c_vjson(void) { char* r = c4_verify_execute_json_status(vctx[N(1)]); o("{\"t\":\""); o_hex((uint8_t*) r, strlen(r)); o("\"}"); free(r); }
static void c_pfree(void) { int s = N(1); if (pctx[s]) c4_free_prover_ctx(pctx[s]); pctx[s] = NULL; o("{\"ok\":1}"); }
static void c_method(void) { char* m = unstr(tok[2]); o("{\"t\":%d}", c4_get_method_support(N(1), m)); free(m); }
extern int blst_fake_accept_all;
static void c_blsall(void) { blst_fake_accept_all = N(1); o("{\"ok\":1}"); }
static void c_hash(void) { bytes_t d = T(2); uint8_t h[32]; if (tok[1][0] == 'k') keccak(d, h); else sha256(d, h); o("{\"h\":\""); o_hex(h, 32); o("\"}"); free(d.data); }

#include "sut_units.h"
#include "sut_caches.h"
#include "sut_ems.h"
#include "sut_op.h"

static struct { const char* n; cmd_fn f; } cmds[] = {
    {"ping", c_ping}, {"time", c_time}, {"max", c_max}, {"pf", c_pf}, {"crash", c_crash}, {"sset", c_sset}, {"sget", c_sget}, {"sdel", c_sdel}, {"sclear", c_sclear}, {"sdump", c_sdump}, {"slog", c_swap},
    {"vnew", c_vnew}, {"vstep", c_vstep}, {"vfree", c_vfree}, {"resp", c_resp}, {"rerr", c_rerr},
    {"pnew", c_pnew}, {"pstep", c_pstep}, {"pfree", c_pfree}, {"pjson", c_pjson}, {"pproof", c_pproof}, {"vjson", c_vjson}, {"method", c_method}, {"hash", c_hash}, {"blsall", c_blsall},
    UNIT_CMDS CACHE_CMDS EMS_CMDS OP_CMDS
    {NULL, NULL}};

int main(void) {
  signal(SIGPIPE, SIG_IGN);
  install_storage(0);
  pid_t parent = getpid();
  while (rdline()) {
    split();
    if (!ntok) continue;
    if (!strcmp(tok[0], "begin")) {
      pid_t p = fork();
      if (p) { /* parent: wait for the episode */
        int st = 0;
        waitpid(p, &st, 0);
        rb_n = rb_p = 0;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) o("{\"end\":1}");
        else o("{\"crash\":%d,\"sig\":%d}", WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
        flush_out();
        continue;
      }
      o("{\"ok\":1}"); flush_out();
      continue;
    }
    if (!strcmp(tok[0], "end")) { if (getpid() != parent) _exit(0); o("{\"ok\":1}"); flush_out(); continue; }
    int i;
    if (setjmp(power_gone)) { writes_left = -1; out_len = 0; o("{\"power\":1}"); flush_out(); continue; }
    for (i = 0; cmds[i].n; i++) if (!strcmp(cmds[i].n, tok[0])) { cmds[i].f(); break; }
    if (!cmds[i].n) o("{\"bad\":\"command\"}");
    flush_out();
  }
  return 0;
}
