// runs scenarios (one JSON line each on stdin) with the TypeScript client; node host.mjs BUNDLE
import readline from 'node:readline';
const lib = await import(process.argv[2]);
const { default: Colibri, Strategy, set_wasm_url, stub, ProviderRpcError } = lib;
set_wasm_url('/dev/null');
await Colibri.register_storage(stub.storage);
console.log = console.warn = console.error = console.info = () => { };
process.on('unhandledRejection', (e) => { unhandled.push(String(e)); });
let unhandled = [], inflight = 0;
const real_fetch = globalThis.fetch;
let canned, sent = [];
globalThis.fetch = async (...a) => { if (canned !== undefined) { sent.push({ url: a[0], ...JSON.parse(a[1]?.body || '{}') }); return new Response(JSON.stringify({ jsonrpc: '2.0', id: 1, result: canned })); } inflight++; try { const r = await real_fetch(...a); const b = await r.arrayBuffer(); return new Response(b, { status: r.status, headers: r.headers }); } finally { inflight--; } };
const quiet = async () => { for (let i = 0; i < 4; i++) { await new Promise(r => setImmediate(r)); if (inflight) i = -1; } };
async function call(q) {
  canned = q.canned; sent = [];
  const warnings = [], events = [];
  const conf = { chainId: q.chainId, prover: q.prov, rpcs: q.rpc, beacon_apis: q.bea, checkpointz: q.chk, include_code: true, warningHandler: async (r, m) => { warnings.push(m); } };
  if (q.conf == 'chain') conf.chains = { [q.chainId]: { proofStrategy: Strategy[q.strategy], rpcs: q.rpc } }; else conf.proofStrategy = Strategy[q.strategy];
  if (q.conf == 'debug') conf.debug = true;
  if (q.cp) conf.trusted_checkpoint = q.cp;
  if (q.verifyTransactions) conf.verifyTransactions = true;
  if (q.fallback !== undefined) conf.fallback_provider = { request: async ({ method, params }) => { events.push({ fallback: method, params }); if (q.fallback[method] === undefined) throw new Error('unknown method'); return q.fallback[method]; } };
  const c = new Colibri(conf), calls = [];
  c.on('connect', (d) => events.push({ connect: d }));
  c.on('disconnect', (d) => events.push({ disconnect: d.code }));
  for (const x of q.calls) {
    const one = async () => { try { return { st: 'ok', res: x.api == 'rpc' ? await c.rpc(x.method, x.params) : await c.request({ method: x.method, params: x.params }) }; } catch (e) { return { st: 'err', res: String(e && e.message), code: e && e.code, typed: e instanceof ProviderRpcError }; } };
    calls.push(q.parallel ? one() : await one());
  }
  const out = await Promise.all(calls);
  await quiet();
  return { calls: out, warnings, events, sent, problems: stub.memory.problems, unhandled };
}
for await (const line of readline.createInterface({ input: process.stdin })) {
  stub.reset(); unhandled = [];
  let r;
  try { r = await call(JSON.parse(line, (k, v) => v && v.$big ? BigInt(v.$big) : v)); } catch (e) { r = { fatal: String(e && e.stack || e) }; }
  process.stdout.write(JSON.stringify(r, (k, v) => typeof v == 'bigint' ? v.toString() : v) + '\n');
}
