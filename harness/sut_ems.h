/* the interface of bindings/emscripten/ems.c; addresses are passed as numbers, as in the web assembly module */
extern void* c4w_create_proof_ctx(char*, char*, uint64_t, uint32_t);
extern void  c4w_free_proof_ctx(void*);
extern char* c4w_execute_proof_ctx(void*);
extern void  c4w_req_set_response(void*, void*, size_t, uint16_t);
extern void  c4w_req_set_error(void*, char*, uint16_t);
extern void* c4w_create_verify_ctx(uint8_t*, size_t, char*, char*, uint64_t, char*, char*);
extern void  c4w_free_verify_ctx(void*);
extern int   c4w_get_method_type(uint64_t, char*);
extern char* c4w_verify_proof(void*);
static char* W(int i) { return i < ntok && strcmp(tok[i], "!") ? unstr(tok[i]) : NULL; } /* "!" is the null pointer */
static void* P(int i) { return (void*) (uintptr_t) N(i); }
static void w_text(char* r) { o("{\"t\":\""); o_hex((uint8_t*) r, strlen(r)); o("\"}"); free(r); }
static void c_wpnew(void) { char *m = W(1), *a = W(2); o("{\"p\":%llu}", (unsigned long long) (uintptr_t) c4w_create_proof_ctx(m, a, N(3), N(4))); free(m); free(a); }
static void c_wpexec(void) { w_text(c4w_execute_proof_ctx(P(1))); }
static void c_wpfree(void) { c4w_free_proof_ctx(P(1)); o("{\"ok\":1}"); }
static void c_wmem(void) { o("{\"v\":\""); o_hex(P(1), N(2)); o("\"}"); }
/* the memory of the response belongs to the request from now on; it is exactly as large as the host made it */
static void c_wresp(void) { bytes_t d = T(2); c4w_req_set_response(P(1), d.data, N(3), N(4)); o("{\"ok\":1}"); }
static void c_werr(void) { char* e = W(2); c4w_req_set_error(P(1), e, N(3)); free(e); o("{\"ok\":1}"); }
static void c_wvnew(void) {
  bytes_t p = T(1); char *m = W(2), *a = W(3), *c = W(5), *k = W(6);
  o("{\"p\":%llu}", (unsigned long long) (uintptr_t) c4w_create_verify_ctx(p.data, p.len, m, a, N(4), c, k));
  free(p.data); free(m); free(a); free(c); free(k);
}
static void c_wvexec(void) { w_text(c4w_verify_proof(P(1))); }
static void c_wvfree(void) { c4w_free_verify_ctx(P(1)); o("{\"ok\":1}"); }
static void c_wmeth(void) { char* m = W(2); o("{\"t\":%d}", c4w_get_method_type(N(1), m)); free(m); }
#define EMS_CMDS {"wpnew", c_wpnew}, {"wpexec", c_wpexec}, {"wpfree", c_wpfree}, {"wmem", c_wmem}, {"wresp", c_wresp}, {"werr", c_werr}, {"wvnew", c_wvnew}, {"wvexec", c_wvexec}, {"wvfree", c_wvfree}, {"wmeth", c_wmeth},
