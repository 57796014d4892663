"""Runs histories of Binding.tla and scenarios of BindArgs.tla through the C interface of the bindings."""
import json
import provej, dispj, hostj, sut
from blkw import *
def status(t):
    try: d = json.loads(t); return d if isinstance(d, dict) and isinstance(d.get("status"), str) else {"status": "bad"}
    except ValueError: return {"status": "bad"}
KIND = {"pb": ("p", "bal"), "pl": ("p", "logs"), "pr": ("p", "receipt"), "vb": ("v", "bal"), "vt": ("v", "txhash"), "vl": ("v", "logs"), "loc": ("l", "chainId")}
FIELDS = {"req_ptr": int, "chain_id": int, "encoding": str, "exclude_mask": str, "method": str, "url": str, "type": str}
def hist(su, h):
    out, ctx = [], {}
    S = lambda m, client: dict(hostj.BASE, m=m, client=client, blk="num"); n = provej.the_net(S("bal", "cp"))
    for m in ("bal", "txhash", "logs"): hostj.proof(su, S(m, "cp"), n)
    def execute(c):
        k, m, ids = ctx[c][:3]
        d = status(bytes.fromhex(su.cmd("pjson" if k == "p" else "vjson", c)["t"]).decode("latin1")); r = dict(st=d["status"], l=[], t=0)
        if r["st"] == "pending":
            ctx[c][3] = d["requests"]
            for q in d["requests"]:
                if not all(isinstance(q.get(f), t) for f, t in FIELDS.items()): r["st"] = "bad"; break
                r["l"].append(ids.setdefault(q["req_ptr"], len(ids) + 1))
        else: ctx[c][3] = []
        ctx[c][4] = r["st"] != "pending"       # (a context that is done is not executed again)
        if r["st"] == "success":
            if k == "p": r["t"] = int(len(su.cmd("pproof", c)["p"]) > 0 and d["result_len"] > 0)
            elif k == "l": r["t"] = int(d["result"] == hex(n.c.id))
            else: r["t"] = int(provej.same(S(m, "cp"), n, d["result"]))
        if r["st"] == "error" and not d.get("error"): r["st"] = "bad"
        return r
    def answer(c, part, err=False):
        rs = ctx[c][3]; sel = {"all": rs, "rev": rs[::-1], "first": rs[:1], "last": rs[-1:]}[part]
        for q in sel:
            a = n.answer({"payload": json.dumps(q["payload"]).encode().hex() if "payload" in q else "", "url": q["url"]})[1]
            if err or isinstance(a, Exception): su.rerr(q["req_ptr"], "host error \"%s\"\n" % a if isinstance(a, Exception) else "host error", 0)
            else: su.resp(q["req_ptr"], a, 0)
        ctx[c][3] = [q for q in rs if q not in sel]
        return [ctx[c][2][q["req_ptr"]] for q in sel]
    def free(c): su.cmd("pfree" if ctx[c][0] == "p" else "vfree", c); del ctx[c]
    Z = lambda o, c, k="", **kw: out.append(dict(dict(o=o, c=c, k=k, st="", l=[], t=0), **kw))
    su.push(); su.cmd("time", 1735100000000); _, cp = provej.client(su, S("bal", "cp"), n)
    for s in h:
        c = s["c"]
        if s["o"] == "n":
            k, m = KIND[s["k"]]; ctx[c] = [k, m, {}, [], False]
            if k == "p": su.cmd("pnew", c, sut.hx(hostj.METHOD[m]), sut.hx(json.dumps(provej.request_of(S(m, "cp"), n))), n.c.id, 1, "-")
            elif k == "l": su.vnew(c, b"", "eth_chainId", "[]", n.c.id)
            else: su.vnew(c, hostj.proof(su, S(m, "cp"), n), hostj.METHOD[m], json.dumps(provej.request_of(S(m, "cp"), n)), n.c.id, cp)
            Z("n", c, s["k"])
        elif s["o"] == "e":
            if not ctx[c][4]: Z("e", c, **execute(c))
        elif s["o"] == "a": Z("a", c, s["k"], l=answer(c, s["k"]))
        elif s["o"] == "x": Z("x", c, l=answer(c, "first", True))
        elif s["o"] == "f": free(c); Z("f", c)
    for c in sorted(ctx):       # the host finishes what is left
        for _ in range(14):
            if ctx[c][4]: break
            r = execute(c); Z("e", c, **r)
            if r["st"] != "pending": break
            Z("a", c, "all", l=answer(c, "all"))
        Z("end", c); free(c)
    su.pop()
    return out
# ---- arguments
ARGS = {"ok": lambda a: a, "lead": lambda a: "  " + a, "trail": lambda a: a + " \n", "nl": lambda a: "\n\t" + a + "\n", "spaced": lambda a: a.replace(",", " , ").replace("[", "[ "), "trunc": lambda a: a[:-1], "half": lambda a: a[:len(a) // 2], "open": lambda a: "[", "obj": lambda a: "{}", "null": lambda a: "null",
        "empty": lambda a: "", "str": lambda a: '"x"', "noarr": lambda a: a[1:-1], "extra": lambda a: a[:-1] + (',"x"]' if len(a) > 2 else '"x"]'), "none": lambda a: "[]", "garb": lambda a: "]]}}", "nums": lambda a: "[1,2,3]", "nest": lambda a: "[" + a + "]", "quote": lambda a: '["', "sp": lambda a: "   "}
def cps(n): r = n.boot_root.hex(); return {"none": "", "ok": "0x" + r, "short": "0x" + r[:-2], "odd": "0x" + r[:-1], "long": "0x" + r + "00", "nohex": "0x" + "zz" + r[2:], "late": "0x" + r[:-1] + "g", "noprefix": r, "pre66": "00" + r, "x": "0x", "word": "latest", "zero": "0" * 66}
def args(su, x):
    s = x["s"]; ps = dict(hostj.BASE, m=s["m"], client="have" if s["client"] == "have" else "cp", blk="num"); n = provej.the_net(ps); cid = n.c.id if s["chain"] == "main" else 99999
    if s["m"] in provej.METHOD: me, a, pr, good = hostj.METHOD[s["m"]], json.dumps(provej.request_of(ps, n)), hostj.proof(su, dict(ps, client="cp"), n), lambda r: provej.same(ps, n, r)
    else: pr, me, a, _ = dispj.honest(s["m"]); good = lambda r: dispj.local_ok(s["m"], r, n.c)
    su.push()
    try:
        su.cmd("time", 1735100000000)
        if s["client"] == "have": provej.client(su, ps, n)
        before = su.sdump()[0]
        cp = None if s["cp"] == "null" else cps(n)[s["cp"]]; res = None
        su.cmd("vnew", 0, sut.hx(pr), sut.hx(me), sut.hx(ARGS[s["args"]](a)), cid, "-" if cp is None else sut.hx(cp) if cp else "-")
        for k in range(30):
            t = bytes.fromhex(su.cmd("vjson", 0)["t"]).decode("latin1"); d = status(t)
            if d["status"] != "pending": break
            for q in d["requests"]:
                b = n.answer({"payload": json.dumps(q["payload"]).encode().hex() if "payload" in q else "", "url": q["url"]})[1] if q["type"] != "checkpointz" else Exception("no checkpointz")
                su.rerr(q["req_ptr"], str(b), 0) if isinstance(b, Exception) else su.resp(q["req_ptr"], b, 0)
        after = su.sdump()[0]
        su.cmd("vfree", 0)
    finally: su.pop()
    if d["status"] not in ("success", "error"): return "%s ends with %s" % (s, t[:200])
    if not (s["cp"] in ("none", "null", "ok")) and before != after: return "%s: a malformed checkpoint changes the trust state" % s
    if d["status"] == "error": return "%s is rejected: %s" % (s, d.get("error")) if x["ok"] == "yes" else None
    if x["ok"] == "no": return "%s is answered with %s" % (s, t[:200])
    if s["args"] in ("ok", "lead", "trail", "nl", "spaced") and s["chain"] == "main" and not good(d["result"]): return "%s yields a wrong result: %s" % (s, t[:300])
    if s["args"] not in ("ok", "lead", "trail", "nl", "spaced", "extra", "trunc") and s["m"] in provej.METHOD and s["m"] not in ("bn", "logs"): return "%s: arguments that select nothing are answered with %s" % (s, t[:200])
