// runs histories of Subs.tla (one JSON line each) with the real SubscriptionManager; node subs.mjs BUNDLE
import readline from 'node:readline';
import { AsyncLocalStorage } from 'node:async_hooks';
const { SubscriptionManager, EventEmitter } = await import(process.argv[2]);
console.log = console.warn = console.error = () => { };
const als = new AsyncLocalStorage();
const realImmediate = setImmediate;
const settle = async () => { for (let i = 0; i < 3; i++) await new Promise(r => realImmediate(r)); };
let timers = new Map(), tid = 0;
globalThis.setTimeout = (f, d) => { timers.set(++tid, { f, d, lab: als.getStore() }); return tid; };
globalThis.clearTimeout = (i) => { timers.delete(i); };
async function run(h) {
  const out = [], calls = [], byId = new Map(), info = new Map();
  const H0 = 100, B = h.reduce((a, s) => a + s.o.length, 0) % 3 ? 0 : 2 ** 33; timers = new Map(); let head = H0 + B, lag = 0;
  const rec = (o, s, x = {}) => out.push({ o, s, k: '', ok: 0, h: 0, l: [], id: '', ...x });
  const rpc = (m, p) => new Promise((res, rej) => { const lab = als.getStore(); calls.push({ m, p, lab, res, rej }); if (m == 'eth_blockNumber') rec('poll', lab); });
  const em = new EventEmitter(), man = new SubscriptionManager(rpc, em, { pollingInterval: 12000 });
  const rel = (n) => Math.abs(n - B) < 1e6 ? n - B : -8;
  const number = (r) => Array.isArray(r) ? r.flatMap(number) : [r && r.number !== undefined ? rel(Number(r.number)) : r && r.blockNumber !== undefined ? rel(Number(r.blockNumber)) : typeof r == 'string' ? rel(parseInt(r.slice(4))) : -7];
  // other parts of the application listen too: one is done after the first message, one is broken
  const once = () => em.removeListener('message', once); em.on('message', once); em.on('message', () => { throw new Error('broken listener'); });
  em.on('message', (m) => { const lab = byId.get(m.data.subscription); rec('msg', lab === undefined ? 1 : lab, { l: lab === undefined ? [-9] : number(m.data.result) }); });
  function answer(c, fail) {
    if (fail == 'junk') { if (c.m == 'eth_blockNumber') { rec('junk', c.lab); return c.res('0xoops'); } if (c.m == 'eth_getBlockByNumber') return c.res(null); }
    if (fail) return c.rej(new Error('server failed'));
    if (c.m == 'eth_blockNumber') { const v = head - lag; lag = 0; rec('seen', c.lab, { h: v - B }); return c.res('0x' + v.toString(16)); }
    if (c.m == 'eth_getBlockByNumber') { const n = Number(c.p[0]); return n <= head ? c.res({ number: c.p[0], hash: 'hash' + n }) : c.res(null); }
    if (c.m == 'eth_getLogs') {
      const f = c.p[0], at = (v, d) => v === undefined ? d : v == 'latest' ? head : v == 'earliest' ? 0 : Number(v), l = [];
      for (let n = Math.max(at(f.fromBlock, head), B); n <= Math.min(at(f.toBlock, head), head); n++) l.push({ blockNumber: '0x' + n.toString(16), address: f.address });
      return c.res(l);
    }
    c.rej(new Error('unknown method'));
  }
  const request = (lab, m, p) => als.run(lab, () => { const r = man.handleRequest(m, p); return r === null ? Promise.reject(new Error('not handled')) : r; });
  async function change(lab) { const k = info.get(lab).gone ? 'late' : ''; try { const l = await request(lab, 'eth_getFilterChanges', [info.get(lab).id]); rec('res', lab, { ok: 1, k, l: number(l) }); } catch (e) { rec('res', lab, { ok: 0, k }); } }
  const tick = () => { const t = [...timers]; timers = new Map(); for (const [, x] of t) als.run(x.lab, x.f); };
  for (const s of h) {
    const x = info.get(s.s);
    if (s.o == 'new') {
      const p = { newHeads: ['eth_subscribe', ['newHeads']], logs: ['eth_subscribe', ['logs', { address: '0x1' }]], block: ['eth_newBlockFilter', []], log: ['eth_newFilter', [{ address: '0x1' }]], logfrom: ['eth_newFilter', [{ address: '0x1', fromBlock: '0x' + (H0 + B - 2).toString(16) }]], loglatest: ['eth_subscribe', ['logs', { fromBlock: 'latest' }]] }[s.k];
      let id = '', ok = 1;
      try { id = await request(s.s, ...p); } catch (e) { ok = 0; }
      byId.set(id, s.s); info.set(s.s, { id, k: s.k, filter: p[0] != 'eth_subscribe' }); rec('new', s.s, { k: s.k == 'loglatest' ? 'logs' : s.k, ok, id, h: H0 - 2 });
    } else if (s.o == 'chg' || s.o == 'chg2') { if (x && x.filter) { change(s.s); if (s.o == 'chg2') change(s.s); } }
    else if (s.o == 'uns') { let ok = 0; try { ok = await request(s.s, x.filter ? 'eth_uninstallFilter' : 'eth_unsubscribe', [x.id]) === true ? 1 : 0; } catch (e) { ok = 0; } x.gone = true; rec('uns', s.s, { ok }); }
    else if (s.o == 'tick') tick();
    else if (s.o == 'ans') { if (calls.length) answer(calls.shift()); }
    else if (s.o == 'last') { if (calls.length) answer(calls.pop()); }
    else if (s.o == 'err') { if (calls.length) answer(calls.shift(), true); }
    else if (s.o == 'junk') { if (calls.length) answer(calls.shift(), 'junk'); }
    else if (s.o == 'cross') { let ok = 0; try { ok = await request(s.s, x.filter ? 'eth_unsubscribe' : 'eth_uninstallFilter', [x.id]) === true ? 1 : 0; if (!x.filter) { await request(s.s, 'eth_getFilterChanges', [x.id]); ok = 1; } } catch (e) { } rec('cross', s.s, { ok }); }
    else if (s.o == 'two') { for (let i = 0; i < 2; i++) { if (calls.length) answer(calls.shift()); await settle(); } }
    else if (s.o == 'all') { for (let i = 0; i < 60 && calls.length; i++) { answer(calls.shift()); await settle(); } }
    else if (s.o == 'adv') head++;
    else if (s.o == 'adv3') head += 3;
    else if (s.o == 'back') lag = 2;
    await settle();
  }
  lag = 0;
  for (let round = 0; round < 3; round++) {          // now everything answers
    for (let i = 0; i < 400 && calls.length; i++) { answer(calls.shift()); await settle(); }
    tick(); for (const [lab, x] of info) if (x.filter) change(lab);
    await settle();
  }
  for (let i = 0; i < 400 && calls.length; i++) { answer(calls.shift()); await settle(); }
  for (const lab of info.keys()) rec('end', lab, { h: head - B });
  return out;
}
for await (const line of readline.createInterface({ input: process.stdin })) {
  let r;
  try { r = await run(JSON.parse(line)); } catch (e) { r = { fatal: String(e && e.stack || e) }; }
  process.stdout.write(JSON.stringify(r) + '\n');
}
