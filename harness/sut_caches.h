/* the caches of the prover */
#ifndef PROVER_CACHE
#define CACHE_CMDS
#else
#define PCN 8
static prover_ctx_t* pc_ctx[PCN];
static struct { void* p; int id; } pc_held[PCN][64];
static int  pc_nheld[PCN], pc_freed[256], pc_nfreed;
static void pc_free_cb(void* p) { pc_freed[pc_nfreed++] = *(int*) p; free(p); }
static void pc_key(const char* k, bytes32_t key) { memset(key, 0, 32); memcpy(key + 3, k, strlen(k)); key[31] = k[0]; }
static int  pc_hold(int c, const void* p) {
  if (!p) return 0;
  int id = *(const int*) p; pc_held[c][pc_nheld[c]].p = (void*) p; pc_held[c][pc_nheld[c]++].id = id; return id;
}
/* pcache op op ...: n.C  g.C.K  l.C.K  s.C.K.V.MB.DUR  f.C  i.K  c  t.MS ; answers [result, [freed...], entries, MB] per step.
   All values a living context has seen are read after each step. */
static void c_pcache(void) {
  uint64_t save = fake_ms; fake_ms = 1000000;
  o("[");
  for (int t = 1; t < ntok; t++) {
    char* a[8] = {0}; int n = 0; for (char* s = strtok(tok[t], "."); s && n < 8; s = strtok(NULL, ".")) a[n++] = s;
    int c = n > 1 ? atoi(a[1]) : 0, r = 0; bytes32_t key; pc_nfreed = 0;
    switch (a[0][0]) {
      case 'n': pc_ctx[c] = c4_prover_create("eth_blockNumber", "[]", 1, 0); pc_nheld[c] = 0; break;
      case 'g': pc_key(a[2], key); r = pc_hold(c, c4_prover_cache_get(pc_ctx[c], key)); break;
      case 'l': pc_key(a[2], key); r = pc_hold(c, c4_prover_cache_get_local(pc_ctx[c], key)); break;
      case 's': { int* v = malloc(sizeof(int)); *v = atoi(a[3]); pc_key(a[2], key); c4_prover_cache_set(pc_ctx[c], key, v, atoi(a[4]) * 1000000, atoi(a[5]), pc_free_cb); pc_hold(c, v); break; }
      case 'f': c4_prover_free(pc_ctx[c]); pc_ctx[c] = NULL; pc_nheld[c] = 0; break;
      case 'i': pc_key(a[1], key); c4_prover_cache_invalidate(key); break;
      case 'c': c4_prover_cache_cleanup(current_ms(), 0); break;
      case 't': fake_ms += atoi(a[1]); break;
    }
    for (int i = 0; i < PCN; i++) if (pc_ctx[i]) for (int k = 0; k < pc_nheld[i]; k++) if (*(int*) pc_held[i][k].p != pc_held[i][k].id) r = -1;
    uint64_t e, s, m, cp; c4_prover_cache_stats(&e, &s, &m, &cp);
    o(t > 1 ? ",[%d,[" : "[%d,[", r); for (int i = 0; i < pc_nfreed; i++) o(i ? ",%d" : "%d", pc_freed[i]);
    o("],%d,%d]", (int) e, (int) (s / 1000000));
  }
  o("]"); fake_ms = save;
}
/* txc op ...: s.HASHNUM.HOME.BLOCK.IDX  g.HASHNUM.HOME  r.N  m.N  x  b.FROM.COUNT.BLOCK (bulk) ; answers [found, block, index, size] */
static void tx_key(int h, uint64_t home, bytes32_t key) { memset(key, 0, 32); for (int i = 0; i < 8; i++) key[i] = home >> (8 * i); memcpy(key + 20, &h, 4); }
static void c_txc(void) {
  o("[");
  for (int t = 1; t < ntok; t++) {
    char* a[8] = {0}; int n = 0; for (char* s = strtok(tok[t], "."); s && n < 8; s = strtok(NULL, ".")) a[n++] = s;
    bytes32_t k; uint64_t b = 0; uint32_t i = 0; int f = 0;
    switch (a[0][0]) {
      case 's': tx_key(atoi(a[1]), strtoull(a[2], 0, 10), k); c4_eth_tx_cache_set(k, atoll(a[3]), atoi(a[4])); break;
      case 'g': tx_key(atoi(a[1]), strtoull(a[2], 0, 10), k); f = c4_eth_tx_cache_get(k, &b, &i); if (!f) { b = 0; i = 0; } break;
      case 'r': c4_eth_tx_cache_reserve(atoi(a[1])); break;
      case 'm': c4_eth_tx_cache_set_max_size(atoi(a[1])); break;
      case 'x': c4_eth_tx_cache_reset(); break;
      case 'b': for (int q = 0; q < atoi(a[2]); q++) { tx_key(1000 + q, (uint64_t) (atoi(a[1]) + q) * 2654435761u, k); c4_eth_tx_cache_set(k, atoll(a[3]) + q / 100, q % 100); } break;
    }
    o(t > 1 ? ",[%d,%llu,%u,%zu]" : "[%d,%llu,%u,%zu]", f, (unsigned long long) b, i, c4_eth_tx_cache_size());
  }
  o("]"); c4_eth_tx_cache_reset(); c4_eth_tx_cache_set_max_size(10000);
}
/* lcache: e.LIMIT  d  a.BLOCK.BLOOMHEX.RECEIPTSHEX  h.FROM.TO (range?)  q.FILTERHEX.(BLOCK.RECEIPTSHEX)* : queries, receipts of these blocks are available */
static void c_lcache(void) {
  o("[");
  for (int t = 1; t < ntok; t++) {
    char* a[64] = {0}; int n = 0; for (char* s = strtok(tok[t], "."); s && n < 64; s = strtok(NULL, ".")) a[n++] = s;
    if (t > 1) o(",");
    switch (a[0][0]) {
      case 'e': c4_eth_logs_cache_enable(atoi(a[1])); o("0"); break;
      case 'd': c4_eth_logs_cache_disable(); o("0"); break;
      case 'a': { bytes_t bl = unhex(a[2]); char* rc = unstr(a[3]); c4_eth_logs_cache_add_block(atoll(a[1]), bl.data, json_parse(rc)); free(bl.data); free(rc); o("0"); break; }
      case 'h': o("%d", c4_eth_logs_cache_has_range(atoll(a[1]), atoll(a[2]))); break;
      case 'q': {
        char* f = unstr(a[1]); char* pr = malloc(strlen(f) + 3); sprintf(pr, "[%s]", f); prover_ctx_t* ctx = c4_prover_create("eth_getLogs", pr, 1, 0); free(pr);
        json_t logs = {0}; bool served = false; int rounds = 0; c4_status_t st; int foreign = 0;
        while ((st = c4_eth_logs_cache_scan(ctx, json_at(ctx->params, 0), &logs, &served)) == C4_PENDING && rounds++ < 20) {
          data_request_t* r;
          while ((r = c4_state_get_pending_request(&ctx->state))) {
            char* pl = r->payload.data ? strndup((char*) r->payload.data, r->payload.len) : strdup(""); int k = 2;
            for (; k + 1 < n; k += 2) { char w[64]; sprintf(w, "\"0x%llx\"", (unsigned long long) atoll(a[k])); if (strstr(pl, "eth_getBlockReceipts") && strstr(pl, w)) break; }
            if (k + 1 < n) { char* rc = unstr(a[k + 1]); char* full = malloc(strlen(rc) + 64); sprintf(full, "{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":%s}", rc); r->response = bytes(full, strlen(full)); free(rc); }
            else { r->error = strdup("no such data"); foreign = 1; }
            free(pl);
          }
          if (foreign && rounds > 3) break;
        }
        char* ls = logs.start && served ? json_new_string(logs) : NULL;
        if (logs.start && served && logs.type == JSON_TYPE_ARRAY) { ls = realloc(ls, logs.len + 1); memcpy(ls, logs.start, logs.len); ls[logs.len] = 0; }
        o("{\"st\":%d,\"served\":%d,\"foreign\":%d,\"logs\":", st, served, foreign); o_raw(ls ? ls : "null", ls ? strlen(ls) : 4); o("}"); free(ls); free(f); c4_prover_free(ctx); break;
      }
    }
  }
  o("]"); c4_eth_logs_cache_disable();
}
#define CACHE_CMDS {"pcache", c_pcache}, {"txc", c_txc}, {"lcache", c_lcache},
#endif
