"""Runs the real TypeScript client (bindings/emscripten/src, with the real ems.c behind a stand-in for the web assembly module) against real HTTP servers (ClientTs.tla)."""
import asyncio, atexit, json, os, subprocess
import build, hostj, provej, sut
from blkw import *
JS = os.path.join(build.HERE, "js")
def bundle():
    out = os.path.join(build.BUILD, "colibri_ts.mjs"); os.makedirs(build.BUILD, exist_ok=True)
    r = subprocess.run(["node", os.path.join(JS, "bundle.mjs"), build.REPO, out], capture_output=True, text=True)
    if r.returncode: raise build.BuildError(r.stderr[-3000:])
    return out
_node = None
class Node:
    def __init__(self, script="host.mjs"):
        a, b = os.pipe(); c, d = os.pipe()                           # driver calls: node writes to its 3, reads from its 4
        def fds():
            b2, c2 = os.dup(b), os.dup(c); b2, c2 = (os.dup(b2) if b2 in (3, 4) else b2), (os.dup(c2) if c2 in (3, 4) else c2)
            os.dup2(b2, 3); os.dup2(c2, 4)
        self.p = subprocess.Popen(["node", "--no-warnings", os.path.join(JS, script), os.path.join(build.BUILD, "colibri_ts.mjs")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=fds, close_fds=False)
        os.close(b); os.close(c); self.rd, self.wr = a, d; self.buf = {}
        os.set_blocking(self.rd, False); os.set_blocking(self.p.stdout.fileno(), False); atexit.register(self.kill)
    def kill(self):
        try: self.p.kill(); self.p.wait()
        except Exception: pass
    def lines(self, fd):
        try: d = os.read(fd, 1 << 20)
        except BlockingIOError: return []
        if not d: raise EOFError
        b = self.buf.get(fd, b"") + d; *ls, rest = b.split(b"\n"); self.buf[fd] = rest
        return ls
    async def run(self, su, q, stop=None, timeout=60):
        loop = asyncio.get_running_loop(); done = loop.create_future(); crash = []
        def calls():
            try:
                for l in self.lines(self.rd):
                    try: r = su.cmd(*l.decode().split())
                    except sut.SutCrash as e: crash.append(e); done.done() or done.set_result(None); r = {"crash": "driver"}
                    os.write(self.wr, b"") if False else self.send(json.dumps(r).encode() + b"\n")
            except EOFError: loop.remove_reader(self.rd); done.done() or done.set_result({"fatal": "node ended"})
        def result():
            try:
                for l in self.lines(self.p.stdout.fileno()): done.done() or done.set_result(json.loads(l))
            except EOFError: loop.remove_reader(self.p.stdout.fileno()); done.done() or done.set_result({"fatal": "node ended"})
        loop.add_reader(self.rd, calls); loop.add_reader(self.p.stdout.fileno(), result)
        self.p.stdin.write(json.dumps(q).encode() + b"\n"); self.p.stdin.flush()
        w = asyncio.create_task(stop.wait()) if stop else None
        await asyncio.wait([done] + ([w] if w else []), return_when=asyncio.FIRST_COMPLETED, timeout=timeout)
        if w: w.cancel()
        for fd in (self.rd, self.p.stdout.fileno()): loop.remove_reader(fd)
        if crash: raise crash[0]
        return done.result() if done.done() else None
    def send(self, b):
        while b: b = b[os.write(self.wr, b):]
def node():
    global _node
    if _node is None: _node = Node()
    return _node
def drop():
    global _node
    if _node: _node.kill(); _node = None
async def go(su, v, s, n, q):
    run, urls, seen, kinds, stop = await hostj.serve(su, v, s, n)
    try: r = await node().run(su, dict(q, **{k: urls[k] for k in ("prov", "rpc", "bea", "chk")}), stop)
    finally: await run.cleanup()
    if r is None or "fatal" in r: drop()
    return r, kinds, seen
def job(su, x):
    v = x["s"]; s = dict(hostj.BASE, m=v["m"], client="cp" if v["client"] == "badcp" else v["client"], blk="latest" if v["m"] == "bal" and v["strat"] != "WarningWithFallback" else "num"); n = provej.the_net(s)
    if s["m"] in provej.METHOD and v["prov"]: hostj.proof(su, s, n)
    if "wrong" in v["prov"] and s["m"] in provej.METHOD: hostj.proof(su, dict(s, m="bal" if s["m"] != "bal" else "nonce"), n)
    params = provej.request_of(s, n) if s["m"] in provej.METHOD else ["0x1234", "grüße, 世界 😀"] if s["m"] == "sha3" else []
    cp = {"cp": "0x" + n.boot_root.hex(), "badcp": "0x" + n.boot_root[:-1].hex() + "%02x" % (n.boot_root[-1] ^ 1)}.get(v["client"])
    q = dict(chainId=n.c.id, cp=cp, strategy=v["strat"], conf=v["conf"], parallel=v["n"] == "par", calls=[dict(api=v["api"], method=METHOD[s["m"]], params=params)] * (1 if v["n"] == "one" else 2))
    su.push()
    try:
        su.cmd("time", 1735100000000); provej.client(su, s, n)
        r, kinds, seen = asyncio.run(go(su, v, s, n, q))
    except sut.SutCrash: drop(); raise
    finally: su.pop()
    what = "%s with %s" % (METHOD[v["m"]], {k: v[k] for k in ("client", "api", "strat", "n", "conf", "prov", "rpc", "bea", "chk")})
    if r is None: return "%s does not end (%d requests)" % (what, sum(seen.values()))
    if "fatal" in r: return "%s ends with %s" % (what, r["fatal"][:300])
    if r["problems"]: return "%s: %s" % (what, r["problems"][0])
    if r["unhandled"]: return "%s: unhandled %s" % (what, r["unhandled"][0])
    if not kinds <= set(x["may"]): return "%s asks servers of the kinds %s" % (what, sorted(kinds - set(x["may"])))
    for c in r["calls"]:
        e = outcome(x, v, s, n, what, c, r)
        if e: return e
def outcome(x, v, s, n, what, c, r):
    warn = len(r["warnings"])
    if c["st"] == "err":
        if v["api"] == "request" and not c.get("typed"): return "%s fails with another error than a ProviderRpcError: %s" % (what, c["res"])
        return "%s fails: %s" % (what, c["res"]) if x["ok"] == "yes" else None
    if "res" not in c: return "%s is answered with nothing" % what
    res = c["res"]
    if x["ok"] == "no": return "%s is answered with %s" % (what, str(res)[:200])
    lying = bool({"wrong", "more", "less"} & set(v["rpc"]))
    if v["m"] == "gas": good = res == "0x77" or x["ok"] == "any" or lying
    elif v["m"] == "chainId": good = res == hex(n.c.id)
    elif v["m"] == "sha3": good = res == "0x56570de287d73cd1cb6092bb8fdee6173974955fdef345ae579ee9f475ea7432"
    elif v["m"] == "nope": good = True
    else: good = provej.same(dict(s, fk="x" if lying else "none"), n, res)
    if x["warn"] == "may": return None if good or warn else "%s yields a wrong result without a warning: %s" % (what, str(res)[:300])
    if not good: return "%s yields a wrong result: %s" % (what, str(res)[:300])
    if x["warn"] == "no" and warn: return "%s warns: %s" % (what, r["warnings"][0])
METHOD = dict(hostj.METHOD, sha3="web3_sha3")
