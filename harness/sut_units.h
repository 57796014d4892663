/* direct access to library functions that are part of the specified behaviour */

/* list of byte strings as SSZ list<bytes> */
static ssz_ob_t u_list(int from, int n) {
  static ssz_def_t def   = SSZ_LIST("bytes", ssz_bytes_list, 1024);
  size_t           total = 4 * n;
  bytes_t*         it    = calloc(n + 1, sizeof(bytes_t));
  for (int i = 0; i < n; i++) { it[i] = T(from + i); total += it[i].len; }
  uint8_t* d = malloc(total ? total : 1); size_t off = 4 * n;
  for (int i = 0; i < n; i++) { uint32_to_le(d + 4 * i, off); if (it[i].len) memcpy(d + off, it[i].data, it[i].len); off += it[i].len; free(it[i].data); }
  free(it);
  return (ssz_ob_t) {.def = &def, .bytes = bytes(d, total)};
}
static void o_list(ssz_ob_t l) {
  o("["); uint32_t n = ssz_len(l);
  for (uint32_t i = 0; i < n; i++) { ssz_ob_t e = ssz_at(l, i); o(i ? ",\"" : "\""); o_hex(e.bytes.data, e.bytes.len); o("\""); }
  o("]");
}
/* pverify path node... */
static void c_pverify(void) {
  bytes32_t root = {0}; bytes_t path = T(1), val = NULL_BYTES; ssz_ob_t proof = u_list(2, ntok - 2);
  int r = patricia_verify(root, path, proof, &val);
  o("{\"r\":%d,\"root\":\"", r); o_hex(root, 32); o("\",\"v\":");
  if (r == PATRICIA_FOUND && val.data) { o("\""); o_hex(val.data, val.len); o("\"}"); } else o("null}");
  free(path.data); free(proof.bytes.data);
}
/* ptrie n k v k v ... then q keys: builds a trie in this order; returns the root, and the proof of every further key. clone=1: works on a clone */
static void c_ptrie(void) {
  int n = N(1), clone = N(2); node_t* root = NULL;
  for (int i = 0; i < n; i++) { bytes_t k = T(3 + 2 * i), v = T(4 + 2 * i); patricia_set_value(&root, k, v); free(k.data); free(v.data); }
  if (clone) { node_t* c = patricia_clone_tree(root); patricia_node_free(root); root = c; }
  if (!root) { o("{\"root\":null}"); return; }
  o("{\"root\":\""); o_hex(patricia_get_root(root).data, 32); o("\",\"p\":[");
  for (int i = 3 + 2 * n; i < ntok; i++) {
    bytes_t k = T(i); ssz_ob_t p = patricia_create_merkle_proof(root, k);
    if (i > 3 + 2 * n) o(",");
    static ssz_def_t def = SSZ_LIST("bytes", ssz_bytes_list, 1024);
    p.def = &def; o_list(p); free(p.bytes.data); free(k.data);
  }
  o("]}"); patricia_node_free(root);
}

/* ---- SSZ: types are given as text: u8 b n v3(T) l5(T) c(T,T) U(T,T) B9 L9 */
static const char* tp;
static ssz_def_t   u_type(const char* name) {
  ssz_def_t d = {0}; char k = *tp++; uint32_t n = 0;
  d.name = name;
  while (isdigit((unsigned char) *tp)) n = n * 10 + (*tp++ - '0');
  switch (k) {
    case 'u': d.type = SSZ_TYPE_UINT; d.def.uint.len = n; break;
    case 'b': d.type = SSZ_TYPE_BOOLEAN; break;
    case 'n': d.type = SSZ_TYPE_NONE; break;
    case 'B': d.type = SSZ_TYPE_BIT_VECTOR; d.def.vector.len = n; break;
    case 'L': d.type = SSZ_TYPE_BIT_LIST; d.def.vector.len = n; break;
    case 'v': case 'l': { ssz_def_t* e = malloc(sizeof(ssz_def_t)); tp++; *e = u_type("e"); tp++; d.type = k == 'v' ? SSZ_TYPE_VECTOR : SSZ_TYPE_LIST; d.def.vector.len = n; d.def.vector.type = e; break; }
    case 'c': case 'U': {
      ssz_def_t* e = calloc(64, sizeof(ssz_def_t)); int c = 0;
      do { tp++; char* nm = malloc(8); sprintf(nm, "%s%d", k == 'c' ? "f" : "v", c); e[c++] = u_type(nm); } while (*tp == ',');
      tp++; d.type = k == 'c' ? SSZ_TYPE_CONTAINER : SSZ_TYPE_UNION; d.def.container.elements = e; d.def.container.len = c; break;
    }
  }
  return d;
}
static void u_view(ssz_ob_t ob) { /* what the accessors deliver */
  if (!ob.def) { o("\"?\""); return; }
  switch (ob.def->type) {
    case SSZ_TYPE_CONTAINER: o("["); for (uint32_t i = 0; i < ob.def->def.container.len; i++) { if (i) o(","); u_view(ssz_get(&ob, ob.def->def.container.elements[i].name)); } o("]"); break;
    case SSZ_TYPE_VECTOR: case SSZ_TYPE_LIST: { uint32_t n = ssz_len(ob); o("["); for (uint32_t i = 0; i < n; i++) { if (i) o(","); u_view(ssz_at(ob, i)); } o("]"); break; }
    case SSZ_TYPE_UNION: u_view(ssz_union(ob)); break;
    case SSZ_TYPE_NONE: o("null"); break;
    case SSZ_TYPE_BIT_LIST: o("{\"n\":%u,\"h\":\"", ssz_len(ob)); o_hex(ob.bytes.data, ob.bytes.len); o("\"}"); break;
    default: o("\""); o_hex(ob.bytes.data, ob.bytes.len); o("\""); break;
  }
}
/* ssz type bytes: validation, view, root, JSON */
static void c_ssz(void) {
  tp = tok[1]; ssz_def_t def = u_type("t"); bytes_t d = T(2); uint8_t dummy = 0;
  if (!d.data) d = bytes(malloc(1), 0);
  (void) dummy;
  ssz_ob_t ob = {.def = &def, .bytes = d}; c4_state_t st = {0};
  bool ok = ssz_is_valid(ob, true, &st);
  o("{\"ok\":%s", ok ? "true" : "false");
  if (ok) {
    o(",\"view\":"); u_view(ob);
    uint8_t h[32]; ssz_hash_tree_root(ob, h); o(",\"root\":\""); o_hex(h, 32); o("\"");
    char* js = ssz_dump_to_str(ob, false, true); o(",\"json\":"); o_str(js); free(js);
  }
  o("}"); free(d.data); c4_state_free(&st);
}
/* sszjson type json: ssz_from_json */
static void c_sszjson(void) {
  tp = tok[1]; ssz_def_t def = u_type("t"); char* s = unstr(tok[2]); c4_state_t st = {0};
  ssz_ob_t ob = ssz_from_json(json_parse(s), &def, &st);
  o("{\"err\":%s,\"b\":\"", st.error ? "true" : "false"); o_hex(ob.bytes.data, ob.bytes.data ? ob.bytes.len : 0); o("\"}"); free(s); free(ob.bytes.data);
}
/* mverify proof leafes gindex... */
static void c_mverify(void) {
  bytes_t p = T(1), l = T(2); gindex_t g[64]; int n = ntok - 3; uint8_t out32[32] = {0};
  for (int i = 0; i < n; i++) g[i] = N(3 + i);
  bool r = ssz_verify_multi_merkle_proof(p, l, g, out32);
  o("{\"r\":%s,\"root\":\"", r ? "true" : "false"); o_hex(out32, 32); o("\"}"); free(p.data); free(l.data);
}
/* mcreate type bytes gindex...: creates the proof */
static void c_mcreate(void) {
  tp = tok[1]; ssz_def_t def = u_type("t"); bytes_t d = T(2); gindex_t g[64]; int n = ntok - 3; uint8_t h[32] = {0};
  for (int i = 0; i < n; i++) g[i] = N(3 + i);
  bytes_t p = ssz_create_multi_proof_for_gindexes((ssz_ob_t) {.def = &def, .bytes = d}, h, g, n);
  o("{\"root\":\""); o_hex(h, 32); o("\",\"p\":\""); o_hex(p.data, p.data ? p.len : 0); o("\"}"); free(p.data); free(d.data);
}
/* ---- RLP: rlp bytes...: for every byte string the count and the items -1..7 */
static void c_rlp(void) {
  o("[");
  for (int t = 1; t < ntok; t++) {
    bytes_t d = T(t); if (!d.data) d = bytes(malloc(1), 0);
    o(t > 1 ? ",[" : "[");
    for (int i = -1; i < 8; i++) {
      bytes_t s = d, r = NULL_BYTES; int k = rlp_decode(&s, i, &r);
      o(i < 0 ? "%d" : ",[%d", k);
      if (i >= 0) { if (k == RLP_ITEM || k == RLP_LIST) o(",%d,%u,\"%llu\"]", (int) (r.data - d.data), r.len, (unsigned long long) rlp_get_uint64(d, i)); else o("]"); }
    }
    o("]"); free(d.data);
  }
  o("]");
}
/* rlpenc: i<hex> item, u<hex> uint, U<n> uint64, [ opens and ] closes a list (with rlp_to_list), ( ) the same with rlp_add_list */
static void c_rlpenc(void) {
  buffer_t st[16] = {0}; int d = 0;
  for (int t = 1; t < ntok; t++) {
    char* s = tok[t];
    if (*s == '[' || *s == '(') d++;
    else if (*s == ']') { rlp_to_list(&st[d]); buffer_append(&st[d - 1], st[d].data); buffer_free(&st[d]); d--; }
    else if (*s == ')') { rlp_add_list(&st[d - 1], st[d].data); buffer_free(&st[d]); d--; }
    else if (*s == 'U') rlp_add_uint64(&st[d], strtoull(s + 1, NULL, 10));
    else { bytes_t b = unhexf(s[1] ? s + 1 : "-"); if (*s == 'u') rlp_add_uint(&st[d], b); else rlp_add_item(&st[d], b); free(b.data); }
  }
  o("{\"b\":\""); o_hex(st[0].data.data, st[0].data.len); o("\"}"); buffer_free(&st[0]);
}
/* ---- JSON */
static const char* jtext; static size_t jtextlen; static int jbudget;
static void u_json(json_t v, int depth) {
  if (jbudget-- < 0) { o("\"...\""); return; }
  if (v.type == JSON_TYPE_INVALID || v.type == JSON_TYPE_NOT_FOUND) { o("{\"t\":\"?\"}"); return; }
  if (v.start < jtext || v.start + v.len > jtext + jtextlen) { o("{\"t\":\"outside\"}"); return; }
  switch (v.type) {
    case JSON_TYPE_OBJECT: {
      o("{\"t\":\"o\",\"m\":["); bytes_t p = NULL_BYTES; int n = 0;
      json_for_each_property(v, e, p) {
        char* nm = malloc(p.len + 1); memcpy(nm, p.data, p.len); nm[p.len] = 0;
        o(n++ ? ",[" : "["); o_str(nm); o(","); u_json(e, depth + 1); o(","); json_t g = json_get(v, nm); u_json(g, depth + 1);
        buffer_t jb = {0}; json_t pth = json_get_path(v, nm); o(",%s]", pth.start == g.start && pth.len == g.len ? "true" : "false"); free(nm); buffer_free(&jb);
      }
      json_t miss = json_get(v, "missing"); o("],\"miss\":%d}", miss.type); break;
    }
    case JSON_TYPE_ARRAY: {
      size_t n = json_len(v); o("{\"t\":\"a\",\"n\":%zu,\"l\":[", n);
      for (size_t i = 0; i < n; i++) { if (i) o(","); u_json(json_at(v, i), depth + 1); }
      o("],\"miss\":%d}", json_at(v, n).type); break;
    }
    default: {
      char* s = json_new_string(v); static const char* K = "?snoabl"; o("{\"t\":\"%c\",\"s\":", K[v.type]); o_str(s); o(",\"u\":\"%llu\",\"b\":%d,\"z\":%d}", (unsigned long long) json_as_uint64(v), json_as_bool(v), json_as_null(v)); free(s); break;
    }
  }
}
static void c_jview(void) {
  o("[");
  for (int t = 1; t < ntok; t++) { char* s = unstr(tok[t]); jtext = s; jtextlen = strlen(s); jbudget = 200; if (t > 1) o(","); u_json(json_parse(s), 0); free(s); }
  o("]");
}
/* jval schema text ...: json_validate, json_validate_cached */
static void c_jval(void) {
  o("[");
  for (int t = 1; t + 1 < ntok; t += 2) {
    char *d = unstr(tok[t]), *s = unstr(tok[t + 1]); json_t v = json_parse(s);
    const char* e = json_validate(v, d, ""); const char* c = json_validate_cached(v, d, "");
    o(t > 1 ? ",[%d,%d]" : "[%d,%d]", !e, !c); free((char*) e); free((char*) c); free(d); free(s);
  }
  o("]");
}
/* jbytes size text ...: reads into a fixed buffer of this size, surrounded by other data */
static void c_jbytes(void) {
  o("[");
  for (int t = 1; t + 1 < ntok; t += 2) {
    int z = N(t); char* s = unstr(tok[t + 1]); json_t v = json_parse(s); uint8_t* b = malloc(z ? z : 1); memset(b, 0xee, z ? z : 1);
    uint32_t n = json_to_bytes(v, bytes(b, z)); buffer_t g = {0}; bytes_t r = json_as_bytes(v, &g);
    o(t > 1 ? ",[%u,\"" : "[%u,\"", n); if (n <= z) o_hex(b, n); o("\",\"%llu\",\"", (unsigned long long) json_as_uint64(v)); o_hex(r.data, r.data ? r.len : 0);
    char tmp[8]; buffer_t sb = stack_buffer(tmp); char* q = json_as_string(v, &sb); o("\",%zu]", strnlen(q, 8)); buffer_free(&g); free(b); free(s);
  }
  o("]");
}
#define UNIT_CMDS {"pverify", c_pverify}, {"ptrie", c_ptrie}, {"ssz", c_ssz}, {"sszjson", c_sszjson}, {"mverify", c_mverify}, {"mcreate", c_mcreate}, {"rlp", c_rlp}, {"rlpenc", c_rlpenc}, {"jview", c_jview}, {"jval", c_jval}, {"jbytes", c_jbytes},
