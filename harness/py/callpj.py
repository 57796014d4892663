"""Executions of Call.tla proven by the real prover: an honest (or lying) node tells what the call touches, the real verifier executes it."""
import json
import opw, provej, net as N, callj
from blkw import *
from callj import ACC, KEY, W, REAL
class CallNet(N.Net):
    body = "none"
    """the call is executed on block 0, block 1 carries its signature"""
    def __init__(s, x):
        s.x = x; s.chain = "op/x" if x.get("op") else "main/electra"; s.ch, s.era = s.chain.split("/"); s.c = CH[s.ch]; s.hist = False
        s.code, s.use = callj.codes(x); s.trie, s.tries = callj.states(s.code)
        s.slot = SLOT[s.ch, s.era]; s.P = s.c.period(s.slot); s.blocks = {}; src = block(s.ch, s.era, "two", "cur")
        b = s.mk(0, s.slot, src, None, "cur", 0x1234567); s.mk(1, s.slot + 1, src, b, "oth", 0x1234568); s.index(); s.bytx = {}
        if x.get("op"): b.isthmus = rnd("withdrawals storage")
    def fields(s, i): return {"feeRecipient": ACC["B"][:19] + bytes([ACC["B"][19] ^ 1])}       # nearly the address of an account
    def root_of(s, st): return s.trie.root() if st == "cur" else rnd("later")
    def answer(s, r):
        u = r["url"] or ""
        if not u.startswith("preconf/"): return N.Net.answer(s, r)
        if u[8:] not in ("pre_latest", hex(s.blocks[0].pl["blockNumber"])): return "preconf", Exception("404")
        p = opw.preconf(s.blocks[0])[1]; return "preconf", p["payload"][1] + p["signature"]
    def touched(s):
        used = [u for u in s.x["used"] if u[1] != "P"]; out = {}
        for k, a, key in used:
            out.setdefault(a, [])
            if k == "key" and KEY[key] not in out[a]: out[a].append(KEY[key])
        return out
    def rpc(s, m, a):
        R = lambda v: json.dumps({"jsonrpc": "2.0", "id": 1, "result": v}).encode()
        E = lambda c, t: json.dumps({"jsonrpc": "2.0", "id": 1, "error": {"code": c, "message": t}}).encode()
        num = hex(s.blocks[0].pl["blockNumber"]); t = s.touched(); x = s.x
        def val(k, key): return REAL.get(k, {}).get(next((n for n, v in KEY.items() if v == key), None), 0)
        if m in ("debug_traceCall", "eth_createAccessList"):
            if a[0].get("to", "").lower() != hx_(ACC["A"]) or a[0].get("data") != hx_(W(1)): return E(-32000, "another call")
            if a[1] != num: return E(-32000, "header not found")
        if m == "debug_traceCall":
            if callj.overrides(x, s.use) or a[2] != {"tracer": "prestateTracer"}: return E(-32602, "overrides or tracer missing")
            pre = {hx_(bytes(20)): {"balance": "0x0"}, hx_(s.blocks[0].pl["feeRecipient"]): {"balance": "0x1", "nonce": 4}}
            for k, keys in t.items():
                e = {"balance": hex(callj.BAL.get(k, 0))}
                if s.code.get(k): e["code"] = hx_(s.code[k])
                if k in callj.BAL: e["nonce"] = 1
                if keys: e["storage"] = {hx_(q): hx_(W(val(k, q))) for q in keys}
                pre[hx_(ACC[k])] = e
            return R(pre)
        if m == "eth_createAccessList":
            ov = callj.overrides(x, s.use)
            if (a[2] if len(a) > 2 else {}) != ov: return E(-32000, "execution reverted")
            if x["dev"].startswith("geth") and not t.get("A"): t.pop("A", None)
            return R({"accessList": [{"address": hx_(ACC[k]), "storageKeys": [hx_(q) for q in keys]} for k, keys in t.items()], "gasUsed": "0x5208"})
        if m == "eth_getProof":
            if a[2] != num: return E(-32000, "header not found")
            ad = bytes.fromhex(a[0][2:]); k = next((k for k, v in ACC.items() if v == ad), None); tr = s.tries.get(k); acc = k in callj.BAL
            st = lambda q: tr.proof(keccak(q)) if tr else []
            if len(a[0]) != 42 or any(not 2 < len(q) <= 66 for q in a[1]): return E(-32602, "invalid address or key")
            ks = [int(q, 16).to_bytes(32, "big") for q in a[1]]
            return R({"address": a[0], "accountProof": [hx_(p) for p in s.trie.proof(keccak(ad))], "balance": hex(callj.BAL.get(k, 0)), "nonce": "0x1" if acc else "0x0", "codeHash": hx_(keccak(s.code[k]) if s.code.get(k) else EMPTY_CODE),
                      "storageHash": hx_(tr.root() if tr else EMPTY_ROOT), "storageProof": [{"key": hx_(q), "value": hex(val(k, q)), "proof": [hx_(p) for p in st(q)]} for q in ks]})
        if m == "eth_getCode":
            k = next((k for k, v in ACC.items() if hx_(v) == a[0].lower()), None); return R(hx_(s.code.get(k, b"")))
        return N.Net.rpc(s, m, a)
def job(su, x):
    n = CallNet(x); mode, fcl, fk = (x["dev"].split("|") + ["-", "none"])[:3]; op = x.get("op")
    f = x.get("form", 0); tx = {"to": "0x" + ACC["A"].hex().upper() if f == 2 else hx_(ACC["A"]), "data": hx_(W(1)), **({"from": hx_(ACC["C"]), "gas": "0xffffff", "value": "0x0"} if f == 1 else {})}
    args = [tx, "latest" if x.get("latest") else hex(n.blocks[0].pl["blockNumber"])]; ov = callj.overrides(x, n.use); args += [ov] if ov else []
    s = dict(provej.BASE, fcl=fcl, fk=fk, d=1, blk="latest" if x.get("latest") else "num", order=x.get("order", "fwd")); m = "colibri_simulateTransaction" if x.get("sim") else "eth_call"
    flags = (provej.F_ACC if mode[:4] in ("list", "geth") else 0) | (0 if mode.endswith("ask") else provej.F_CODE)
    truth = "0x" + b"".join(callj.value(o, x, n.use) for o in x["res"]).hex()
    what = "%s%s of %s with overrides %s (%s)" % ("(OP) " if op else "", m, [(p["id"], p["code"], [(o["o"], o["k"] or o["a"], o["v"] or o["kind"], o["id"]) for o in p["prog"]], p["end"]) for p in x["progs"]], x["ov"], x["dev"])
    su.push()
    try:
        su.cmd("time", 1735100000000)
        if op: opw.sequencers(su); cs = b""
        else: cs, _ = provej.client(su, dict(s, client="have"), n)
        pr, err, total = provej.prove(su, s, n, m, args, cs, flags)
        if err in ("stuck", "endless"): return "the prover does not terminate (%s after %d requests) for %s" % (err, total, what)
        if pr is None:
            if err == "none": return "the prover failed without an error message for " + what
            return "the prover fails for %s: %s" % (what, err) if x["ok"] == "yes" else None
        su.cmd("pfree", 0)
        st, res, ok, log = su.verify(pr, m, json.dumps(args), n.c.id, answer=lambda r: provej.serve(s, n, r, fk != "none")[1])
        if st not in ("success", "error"): return "%s ends with %s" % (what, st)
        if st != "success" or not ok: return "the prover's proof for %s is rejected: %s" % (what, res) if x["ok"] == "yes" else None
        if x["ok"] == "no": return "%s is accepted with %s" % (what, str(res)[:300])
        if m == "eth_call": return None if res == truth else "%s yields %s instead of %s" % (what, res, truth)
        if res.get("returnValue") != truth: return "%s yields %s instead of %s" % (what, res.get("returnValue"), truth)
        want = [(hx_(ACC[a]), hx_(W(v))) for a, v in x["logs"]]; got = [(l["raw"]["address"], l["raw"]["data"]) for l in res.get("logs", [])]
        if got != want: return "%s emits %s instead of %s" % (what, got, want)
    finally: su.pop()
