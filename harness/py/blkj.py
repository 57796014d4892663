"""Builds the scenarios of Block.tla."""
import json
from blkw import *
OPS = ("op", "base")
OTHER = {"cur": "oth", "oth": "cur", "evil": "oth"}
def bl(s, st): ch, era = s["chain"].split("/"); return block(ch, era, s["shape"], st)
def alter(pl, f):
    p = dict(pl); v = p.get(f)
    if f == "txdrop": p["transactions"] = p["transactions"][:-1]
    elif f == "txswap": t = list(p["transactions"]); t[0], t[1] = t[1], t[0]; p["transactions"] = t
    elif f == "txdup": p["transactions"] = p["transactions"] + p["transactions"][-1:]
    elif f == "txbyte":
        t = list(p["transactions"]); x = bytearray(t[-1]); x[-1] ^= 1; t[-1] = bytes(x); p["transactions"] = t
    elif f == "wddrop": p["withdrawals"] = p["withdrawals"][:-1]
    elif f == "wdamount": w = [dict(x) for x in p["withdrawals"]]; w[-1]["amount"] += 1; p["withdrawals"] = w
    elif f == "extraData": p[f] = v + b"!" if len(v) < 32 else v[:-1]
    elif isinstance(v, int): p[f] = v ^ 1
    else: p[f] = bytes([v[0] ^ 0x10]) + v[1:-1] + bytes([v[-1] ^ 1])
    return p
def mpvar(m, mp, other):
    return {"ok": lambda: mp, "short": lambda: mp[:-1], "long": lambda: mp + [bytes(32)], "tamper": lambda: mp[:1] + [rnd("x")] + mp[2:], "empty": lambda: [], "other": other, "swapped": lambda: [mp[1], mp[0]] + mp[2:], "last": lambda: mp[:-1] + [bytes([mp[-1][0] ^ 1]) + mp[-1][1:]]}[m]()
def hdrvar(s, b, o):
    hb = o if s["hdr"] == "other" else b; h = dict(hb.header)
    if s["hdr"] == "slot": h["slot"] += 1
    elif s["hdr"] == "proposer": h["proposerIndex"] += 1
    elif s["hdr"] in ("parent", "state", "body"): h[s["hdr"] + "Root"] = rnd("altered", s["hdr"])
    return hb, h
def signer(b, st):
    p = b.chain.period(b.slot); return committee("blk/evil") if st == "evil" else com(b.ch, p)
def sigp(hb, evil): return hb.sigproof(signer(hb, "evil" if evil else "cur"))
def build(s):
    st = s["state"]; b = bl(s, st); o = bl(s, OTHER[st]); cur = bl(s, "cur")
    hb, h = hdrvar(s, b, o); sp = sigp(hb, st == "evil" and s["hdr"] != "other")
    if s["method"] == "bn":
        gs = [806, 809]; p = alter(b.pl, s["pf"]) if s["pf"] != "ok" else b.pl
        proof = (P_BLOCKNUM, {"blockNumber": p["blockNumber"], "timestamp": p["timestamp"], "proof": mpvar(s["mp"], b.mp(gs), lambda: o.mp(gs)), "header": h, "header_proof": sp})
    else:
        p = alter(b.pl, s["pf"]) if s["pf"] != "ok" else b.pl
        u = 1 if b.chain.gno else 0
        if s["un"] == "other": u = 1 - u
        proof = (P_BLOCK, {"executionPayload": (u, p), "proof": mpvar(s["mp"], b.mp([25]), lambda: o.mp([25])), "header": h, "header_proof": sp})
    data = {"ok": (0, None), "type": (3, 0x1234), "given": (1, rnd("given"))}[s["data"]]
    if s["data"] == "given" and s["method"] != "bn":
        e = {n: t for n, t in BLOCK_DATA.fields}
        z = {n: (0 if isinstance(t, Uint) else bytes(t.fixed) if isinstance(t, ByteVec) else (0, []) if isinstance(t, Union) else b"" if isinstance(t, Bytes) else []) for n, t in e.items()}
        data = (7, dict(z, number=cur.pl["blockNumber"], hash=cur.pl["blockHash"], stateRoot=rnd("forged state")))
    if b.ch in OPS:
        import opw
        hb = o if s["hdr"] == "other" else b; kw = dict(key=opw.EVIL if st == "evil" and hb is b else None, pay="state" if s["hdr"] == "body" else "ok")
        if s["pf"] != "ok": kw["pl"] = p
        req = opw.oprequest((opw.B__, {"block_proof": opw.preconf(hb, **kw)}), data)
    else: req = request(proof=proof, data=data)
    br = s["breq"]; up = (lambda x: "0x" + x[2:].upper()) if s["argn"] == "upper" else (lambda x: "0x" + x[2:].rjust(16, "0")) if s["argn"] == "zeros" else (lambda x: x)
    n = cur.pl["blockNumber"]
    a = {"right": up(hex(n)) if s["method"] == "num" else up(hx_(cur.pl["blockHash"])), "object": {"blockNumber": hex(n)}, "int": n, "next": hex(n + 7)}.get(br, br)
    H = cur.pl["blockHash"]; fl = lambda h, i: h[:i] + bytes([h[i] ^ 8]) + h[i + 1:]
    an = s["argn"]
    if an in ("num32", "num64"): a = hex(n + (1 << int(an[3:])))
    elif an in ("head", "tail", "parent", "stateroot", "shorthash", "longhash"):
        a = hx_({"head": fl(H, 0), "tail": fl(H, 31), "parent": cur.pl["parentHash"], "stateroot": cur.pl["stateRoot"], "shorthash": H[:31], "longhash": H + b"\0"}[an])
    if s["method"] == "bn": return req, "eth_blockNumber", "[]"
    return req, {"num": "eth_getBlockByNumber", "hash": "eth_getBlockByHash"}[s["method"]], json.dumps([a, s["full"] == "true"])
def run(su, c, slot, ch, req, m, args):
    if ch in OPS:
        import opw
        opw.sequencers(su); st, res, ok, log = su.verify(req, m, args, c.id)
        if isinstance(res, dict) and res.get("requestsHash") == hx_(sha(b"")): del res["requestsHash"]        # no requests
        for t in [res] + (res.get("transactions", []) if isinstance(res, dict) else []):       # the nonce of a deposit is only part of its receipt
            if isinstance(t, dict) and t.get("type") == "0x7e": t.pop("nonce", None)
        return st, res, ok, log
    p = c.period(slot)
    store_periods(su, c, [(p - 1, com(ch, p - 1)), (p, com(ch, p))])
    return su.verify(req, m, args, c.id)
def settle(x, st, res, ok, truths, m, args, b, mask=()):
    """truths: list of permitted results"""
    if st not in ("success", "error"): return "verification ended with %s" % st
    if not (st == "success" and ok): return "an honest proof is rejected: %s" % res if x["ok"] == "yes" else None
    best = None
    for t in truths:
        d = [q for q in diff(res, t) if q[0].rsplit(".", 1)[-1] not in mask]
        if not d: best = None; break
        if best is None or len(d) < len(best[0]): best = (d, t)
    else:
        k, txt = explain(best[0], b) if best else (None, "no result is true")
        if not (k and x["ok"] != "no"): return "%s %s yields a wrong result: %s" % (m, args[:200], txt)
        return (k, "%s %s yields a wrong result: %s" % (m, args[:200], txt))
    if x["ok"] == "no": return "a proof that does not establish the result of %s %s is accepted" % (m, args[:200])
    return None
def truth(s, st):
    b = bl(s, st)
    if s["method"] == "bn": return b.pl["blockNumber"]
    ch, era = s["chain"].split("/")
    return ref_block(b, s["full"] == "true", txjson(ch, era, s["shape"], st))
import functools
@functools.lru_cache(None)
def _truth(method, full, chain, shape, st): return truth(dict(method=method, full=full, chain=chain, shape=shape), st)
def job(su, x):
    s = x["s"]; req, m, args = build(s); b = bl(s, "cur")
    su.push()
    try:
        st, res, ok, log = run(su, b.chain, b.slot, b.ch, req, m, args)
        if s["data"] == "type" and st == "error": return None
        return settle(x, st, res, ok, [_truth(s["method"], s["full"], s["chain"], s["shape"], q) for q in (["cur"] if s["breq"] in ("right",) else ["cur", "oth"])], m, args, b, mask=("chainId",) if False else ())
    finally: su.pop()
