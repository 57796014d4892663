"""Runs the real Python client (bindings/python) with the real library behind its native interface and real HTTP servers on the loopback interface (Client.tla)."""
import asyncio, contextlib, glob, io, json, os, sys, types
import build, provej, sut
from blkw import *
for p in glob.glob("/opt/vp/venv/lib/python3*/site-packages"):
    if p not in sys.path: sys.path.append(p)
DOWN = "http://127.0.0.1:9"
class Native(types.ModuleType):
    """the interface of bindings.cpp, served by the driver process"""
    su = None; log = None
    def call(self, *a): return self.su.cmd(*a)
    def register_storage(self, *a): pass
    def clear_storage(self): pass
    def create_prover_ctx(self, method, params, chain_id, flags): self.call("pnew", 1, sut.hx(method), sut.hx(params), chain_id, flags, "-"); return 1
    def prover_execute_json_status(self, c): return bytes.fromhex(self.call("pjson", c)["t"]).decode()
    def prover_get_proof(self, c): return bytes.fromhex(self.call("pproof", c)["p"])
    def free_prover_ctx(self, c): self.call("pfree", c)
    def create_verify_ctx(self, proof, method, args, chain_id, cp): self.call("vnew", 2, sut.hx(proof), sut.hx(method), sut.hx(args), chain_id, sut.hx(cp)); return 2
    def verify_execute_json_status(self, c): return bytes.fromhex(self.call("vjson", c)["t"]).decode()
    def verify_free_ctx(self, c): self.call("vfree", c)
    def req_set_response(self, ptr, data, node): self.call("resp", ptr, sut.hx(bytes(data)), node)
    def req_set_error(self, ptr, err, node): self.call("rerr", ptr, sut.hx(err), node)
    def get_method_support(self, chain_id, method): return self.call("method", chain_id, sut.hx(method))["t"]
_lib = None
def lib():
    """imports the client of the repository"""
    global _lib
    if _lib is None:
        sys.path.insert(0, os.path.join(build.REPO, "bindings/python/src")); sys.dont_write_bytecode = True
        sys.modules["colibri._native"] = Native("colibri._native")
        import colibri
        _lib = colibri
    return _lib
BASE = dict(provej.BASE, shape="two")
METHOD = dict(provej.METHOD, gas="eth_gasPrice", chainId="eth_chainId", sub="eth_subscribe", nope="foo_bar")
_proof = {}
def proof(su, s, n):
    k = json.dumps(s, sort_keys=True)
    if k not in _proof:
        su.push()
        try: _proof[k] = provej.prove(su, s, n, METHOD[s["m"]], provej.request_of(s, n), b"", provej.F_CODE)[0]
        finally: su.pop()
    return _proof[k]
class Endless(Exception): pass
async def serve(su, x, s, n):
    """starts the servers of a scenario; returns them, their addresses per kind, and what they saw"""
    from aiohttp import web
    seen, kinds, stop = {}, set(), asyncio.Event()
    def faulty(b, a, kind):
        if b == "retry": return b'{"jsonrpc":"2.0","id":1,"error":{"code":-32602,"message":"invalid params"}}'
        if b == "html": return b"<html>busy</html>"
        if b == "empty": return b""
        if b == "null": return b'{"jsonrpc":"2.0","id":1,"result":null,"data":null}'
        if b == "wrong" and s["m"] not in provej.METHOD: return a.replace(b"0x77", b"0x78")
        if b == "wrong": return provej.corrupt("vals", a, n, None) if kind != "prov" else proof(su, dict(s, m="bal" if s["m"] != "bal" else "nonce"), n)
        if b in ("more", "less") and b'"result":[{' in a.replace(b" ", b""):
            d = json.loads(a); l = d["result"]; d["result"] = l[:-1] if b == "less" else l + [dict(l[-1], data="0x1234")]
            return json.dumps(d).encode()
        return a
    async def handle(q):
        _, kind, i, *rest = q.rel_url.raw_path.split("/"); i = int(i); b = x[kind][i]; body = await q.read(); url = "/".join(rest) + ("?" + q.rel_url.raw_query_string if q.rel_url.raw_query_string else "")
        k = (kind, i, url, body); seen[k] = seen.get(k, 0) + 1; kinds.add(kind)
        if sum(seen.values()) > 300 or seen[k] > (4 if x.get("n", "one") == "one" else 8): stop.set()
        if b in ("e500", "e404"): return web.Response(status=int(b[1:]), text="busy")
        if kind == "prov" and s["m"] not in provej.METHOD: a = Exception("404")
        elif kind == "prov" and q.method == "POST": a = proof(su, s, n); d = json.loads(body); a = a if d["method"] == METHOD[s["m"]] and d["params"] == provej.request_of(s, n) else b""
        elif q.method == "POST":
            d = json.loads(body); m = d["method"]
            a = json.dumps({"jsonrpc": "2.0", "id": d["id"], "result": "0x77"}).encode() if m == "eth_gasPrice" else n.answer({"payload": body.hex(), "url": ""})[1]
        elif url.endswith("finality_checkpoints"): a = json.dumps({"data": {"finalized": {"epoch": str(n.cps * n.c.spp + 32 >> n.c.spe), "root": "0x" + n.boot_root.hex()}}}).encode()
        else: a = n.answer({"payload": "", "url": url})[1]
        if isinstance(a, Exception): return web.Response(status=404, text=str(a))
        return web.Response(body=faulty(b, a, kind), content_type="application/octet-stream" if "octet" in q.headers.get("Accept", "") else "application/json")
    app = web.Application(client_max_size=1 << 26); app.router.add_route("*", "/{t:.*}", handle)
    run = web.AppRunner(app, access_log=None); await run.setup(); site = web.TCPSite(run, "127.0.0.1", 0); await site.start()
    port = site._server.sockets[0].getsockname()[1]
    urls = lambda kind: [DOWN if b == "down" else "http://127.0.0.1:%d/%s/%d%s" % (port, kind, i, "/" if i % 2 else "") for i, b in enumerate(x[kind])]
    return run, {k: urls(k) for k in ("prov", "rpc", "bea", "chk")}, seen, kinds, stop
async def go(su, x, s, n):
    colibri = lib(); nat = sys.modules["colibri._native"]; nat.su = su
    run, urls, seen, kinds, stop = await serve(su, x, s, n)
    c = colibri.Colibri(chain_id=n.c.id, provers=urls["prov"], eth_rpcs=urls["rpc"], beacon_apis=urls["bea"], checkpointz=urls["chk"], trusted_checkpoint={"cp": "0x" + n.boot_root.hex(), "badcp": "0x" + n.boot_root[:-1].hex() + "%02x" % (n.boot_root[-1] ^ 1)}.get(x["client"]), include_code=True, storage=colibri.MemoryStorage())
    params = provej.request_of(s, n) if s["m"] in provej.METHOD else []
    async def call():
        try: return "ok", await c.rpc(METHOD[s["m"]], params)
        except colibri.ColibriError as e: return "err", str(e)
        except Exception as e: return "exc", "%s: %s" % (type(e).__name__, e)
    t = asyncio.create_task(call()); w = asyncio.create_task(stop.wait())
    try:
        await asyncio.wait([t, w], return_when=asyncio.FIRST_COMPLETED, timeout=100)
        if not t.done(): t.cancel(); r = ("endless", "%d requests" % sum(seen.values()))
        else: r = t.result()
    finally:
        w.cancel(); await run.cleanup()
    return r, kinds, seen, params
def job(su, x):
    v = x["s"]; s = dict(BASE, m=v["m"], client="cp" if v["client"] == "badcp" else v["client"], blk="latest" if v["m"] == "bal" else "num"); n = provej.the_net(s)
    if s["m"] in provej.METHOD and v["prov"]: proof(su, s, n)
    if "wrong" in v["prov"] and s["m"] in provej.METHOD: proof(su, dict(s, m="bal" if s["m"] != "bal" else "nonce"), n)
    su.push()
    try:
        su.cmd("time", 1735100000000); provej.client(su, s, n)
        with contextlib.redirect_stdout(io.StringIO()): (st, res), kinds, seen, params = asyncio.run(go(su, v, s, n))
    finally: su.pop()
    what = "%s with %s" % (METHOD[v["m"]], {k: v[k] for k in ("client", "prov", "rpc", "bea", "chk")})
    if st == "endless": return "%s does not end (%s)" % (what, res)
    if st == "exc": return "%s ends with %s instead of an error of the client" % (what, res)
    if not kinds <= set(x["may"]): return "%s asks servers of the kinds %s" % (what, sorted(kinds - set(x["may"])))
    if st == "err": return "%s fails: %s" % (what, res) if x["ok"] == "yes" else None
    if x["ok"] == "no": return "%s is answered with %s" % (what, str(res)[:200])
    if v["m"] == "gas": good = res == "0x77" or x["ok"] == "any"
    elif v["m"] == "chainId": good = res == hex(n.c.id)
    else: good = provej.same(dict(s, fk="x" if "wrong" in v["rpc"] else "none"), n, res)
    if not good: return "%s yields a wrong result: %s" % (what, str(res)[:300])
