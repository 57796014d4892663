// Stands in for the web assembly module: the same interface (memory, strings, exported functions), served by the driver process which runs
// the real bindings/emscripten/ems.c.  Calls are synchronous, as they are in the module.
import fs from 'node:fs';
const dec = new TextDecoder(), enc = new TextEncoder();
let inbuf = Buffer.alloc(0);
export function driver(...args) {
  const line = Buffer.from(args.join(' ') + '\n');
  for (let o = 0; o < line.length;) o += fs.writeSync(3, line, o);
  for (; ;) {
    const i = inbuf.indexOf(10);
    if (i >= 0) { const r = JSON.parse(inbuf.subarray(0, i).toString()); inbuf = inbuf.subarray(i + 1); if (r.crash) throw new Error('CRASH ' + r.crash); return r; }
    const b = Buffer.alloc(1 << 20);
    const n = fs.readSync(4, b);
    if (!n) process.exit(1);
    inbuf = Buffer.concat([inbuf, b.subarray(0, n)]);
  }
}
const HEAP = new Uint8Array(64 << 20);
let top = 1024, blocks = new Map(), gone = new Set();
export const memory = { problems: [] };
export function reset() { HEAP.fill(0xee, 0, top); top = 1024; blocks = new Map(); gone = new Set(); memory.problems = []; }
const bad = (s) => memory.problems.push(s);
const malloc = (n) => { const p = top; top += (n + 31) & ~15; HEAP.fill(0xee, p, top); blocks.set(p, n); return p; };
const free = (p) => { if (!p) return; if (!blocks.has(p)) return bad('free of memory that is not allocated'); gone.add(p); HEAP.fill(0xdd, p, p + blocks.get(p)); blocks.delete(p); };
const size = (p) => { if (!blocks.has(p)) { bad('use of memory that is not allocated'); return 0; } return blocks.get(p); };
const hex = (b) => b.length ? Buffer.from(b).toString('hex') : '-';
// a C string: the bytes up to the zero, which must lie in the allocated memory
const cstr = (p) => { if (!p) return '!'; const n = size(p), e = HEAP.subarray(p, p + n).indexOf(0); if (e < 0) { bad('string without end'); return '-'; } return hex(HEAP.subarray(p, p + e)); };
const str = (s) => { const b = enc.encode(s), p = malloc(b.length + 1); HEAP.set(b, p); HEAP[p + b.length] = 0; return p; };
const text = (r) => Buffer.from(r.t, 'hex').toString();
const C4W = {
  HEAPU8: HEAP, _malloc: malloc, _free: free,
  // as emscripten: writes whole characters while they and the final zero fit
  stringToUTF8(s, p, max) { let o = p; if (max > size(p)) bad('string written past the end'); for (const c of s) { const b = enc.encode(c); if (o + b.length >= p + max) break; HEAP.set(b, o); o += b.length; } HEAP[o] = 0; return o - p; },
  UTF8ToString(p) { if (!p) return ''; let e = p; while (HEAP[e]) e++; size(p); return dec.decode(HEAP.subarray(p, e)); },
  _c4w_create_proof_ctx: (m, a, c, f) => driver('wpnew', cstr(m), cstr(a), c, f).p,
  _c4w_free_proof_ctx: (c) => { driver('wpfree', c); },
  _c4w_execute_proof_ctx: (c) => {
    let t = text(driver('wpexec', c));
    const d = JSON.parse(t);
    if (d.status == 'success') { const b = Buffer.from(driver('wmem', d.result, d.result_len).v, 'hex'), p = malloc(b.length); HEAP.set(b, p); t = JSON.stringify({ ...d, result: p }); }
    return str(t);
  },
  _c4w_req_set_response: (q, p, n, i) => { const l = size(p); if (n > l) bad('response longer than its memory'); driver('wresp', q, hex(HEAP.subarray(p, p + l)), n, i); gone.add(p); blocks.delete(p); },
  _c4w_req_set_error: (q, p, i) => { driver('werr', q, cstr(p), i); },
  _c4w_get_method_type: (c, m) => driver('wmeth', c, cstr(m)).t,
  _c4w_create_verify_ctx: (p, n, m, a, c, cp, k) => driver('wvnew', hex(p ? HEAP.subarray(p, p + Math.min(n, size(p))) : []), cstr(m), cstr(a), c, cstr(cp), cstr(k)).p,
  _c4w_free_verify_ctx: (c) => { driver('wvfree', c); },
  _c4w_verify_proof: (c) => str(text(driver('wvexec', c))),
  _c4w_req_free: () => { }, _init_storage: () => { },
};
export const storage = {
  get: (k) => { const v = driver('sget', hex(enc.encode(k))).v; return v === null ? null : new Uint8Array(Buffer.from(v, 'hex')); },
  set: (k, v) => { driver('sset', hex(enc.encode(k)), hex(v)); },
  del: (k) => { driver('sdel', hex(enc.encode(k))); },
};
export default async () => C4W;
