"""Runs the real prover of OP-Stack chains against a store of preconfirmations and an execution node and hands its message to the real verifier (OpProve.tla)."""
import functools, json
import opw, provej, net as N
from opw import *
class OpNet(N.Net):
    def __init__(s, chain, shape, d):
        N.Net.__init__(s, chain, shape, d, 0, 0, False)
        s.blocks[0].isthmus = rnd("withdrawals storage")
    def answer(s, r):
        u = r["url"]
        if not u.startswith("preconf/"): return N.Net.answer(s, r)
        x = u[8:]; b = s.blocks[s.head - 1] if x == "pre_latest" else s.find(x)
        return "preconf", s.pre(b) if b else Exception("404")
    def rpc(s, m, a):  # a node reports the nonce of a deposit, which is not part of the transaction, and an empty signature
        if m != "eth_getTransactionByHash": return N.Net.rpc(s, m, a)
        r = json.loads(N.Net.rpc(s, m, a)); t = r["result"]
        if t and t["type"] == "0x7e": t.update({k: t.get(k, "0x0") for k in ("nonce", "v", "r", "s", "gasPrice")})
        return json.dumps(r).encode()
    def pre(s, b): p = opw.preconf(b)[1]; return p["payload"][1] + p["signature"]
@functools.lru_cache(12)
def the_net(chain, shape, d): return OpNet(chain, shape, d)
def job(su, x):
    s = dict(provej.BASE, **x["s"]); n = the_net(s["chain"], s["shape"], s["d"])
    su.push()
    try:
        opw.sequencers(su); su.cmd("time", 1735100000000)
        m, a = provej.METHOD[s["m"]], provej.request_of(s, n)
        pr, err, total = provej.prove(su, s, n, m, a, b"", provej.F_CODE | (provej.F_UV if s["uv"] == "yes" else 0))
        if err in ("stuck", "endless"): return "the prover does not terminate (%s after %d requests) for %s %s" % (err, total, m, a)
        if pr is None:
            if err == "none": return "the prover failed without an error message for %s %s" % (m, a)
            return "the prover fails for %s %s: %s" % (m, str(a)[:200], err) if x["ok"] == "yes" else None
        su.cmd("pfree", 0)
        st, res, ok, log = su.verify(pr, m, json.dumps(a), n.c.id)
        if st not in ("success", "error"): return "verification ended with %s" % st
        if not (st == "success" and ok): return "the proof of the prover for %s %s is rejected: %s" % (m, str(a)[:200], res) if x["ok"] == "yes" else None
        if isinstance(res, dict):
            if res.get("requestsHash") == hx_(sha(b"")): del res["requestsHash"]
            for t in [res] + [t for t in res.get("transactions", []) if isinstance(t, dict)]:
                if t.get("type") == "0x7e" and "depositNonce" not in t: t.pop("nonce", None)
        if not provej.same(s, n, res): return "%s %s yields a wrong result: %s" % (m, str(a)[:200], provej.why(s, n, res))
    finally: su.pop()
