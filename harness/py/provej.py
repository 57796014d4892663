"""Runs the real prover against the nodes of net.py and hands its message to the real verifier (Prove.tla)."""
import json
from blkw import *
from blkw import com as comm
import acct, logj, net as N
F_CODE, F_UV, F_STORE, F_SYNC, F_ACC = 1, 2, 8, 32, 64
METHOD = dict(acct.METHOD, blknum="eth_getBlockByNumber", blkhash="eth_getBlockByHash", bn="eth_blockNumber", txhash="eth_getTransactionByHash", txbh="eth_getTransactionByBlockHashAndIndex", txbn="eth_getTransactionByBlockNumberAndIndex", receipt="eth_getTransactionReceipt", logs="eth_getLogs", verlogs="eth_verifyLogs")
FILT = {"all": {}, "t0": {"topics": [logj.T[0]]}, "a0": {"address": logj.A0}, "none": {"address": hx_(rnd("nobody")[:20])}}
# filters as long as users' filters are: many alternatives, only one of which exists
FILT.update(wide={"address": [hx_(rnd("a%d" % i)[:20]) for i in range(39)] + [logj.A0]}, wtop={"topics": [[hx_(rnd("t%d" % i)) for i in range(30)] + [logj.T[0]]]}, two={"address": [logj.A0, hx_(rnd("nobody")[:20])], "topics": [[]]})
def the_net(s): return N.net(s["chain"], s["shape"], s["d"], s["skip"], s["uns"], s["hist"] == "yes", s.get("body", "some"))
def request_of(s, n):
    t = n.blocks[0]; num, bh = hex(t.pl["blockNumber"]), hx_(t.pl["blockHash"]); m = s["m"]
    blk = {"num": num, "hash": bh}.get(s["blk"], s["blk"])
    if m in acct.METHOD:
        a = [hx_(acct.ADDR_[s["acct"]])]
        if m == "storage": a.append(hx_(acct.SK[s["keys"]]))
        if m == "proof": a.append([hx_(acct.SK[k]) for k in acct.KS[s["keys"]]])
        return a + [blk]
    i = min(s["at"], max(0, len(t.pl["transactions"]) - 1)); txh = hx_(keccak(t.pl["transactions"][i])) if t.pl["transactions"] else hx_(rnd("no tx"))
    if m == "blknum": return [blk, s["at"] % 2 == 0]
    if m == "blkhash": return [bh, s["at"] % 2 == 0]
    if m == "bn": return []
    if m in ("txhash", "receipt"): return [txh]
    if m in ("txbh", "txbn"): return [bh if m == "txbh" else num, hex(i)]
    if m == "verlogs": return [js_log(l) for l in sel_logs(s, n)]
    f = dict(FILT[s["filt"]])
    if s["blk"] == "hash": f["blockHash"] = bh
    else: f["fromBlock"] = num; f["toBlock"] = num if s["blk"] == "num" else hex(n.blocks[max(0, s["d"] - 1)].pl["blockNumber"])
    return [f]
def js_log(l): return N.js(l)
def sel_logs(s, n):
    b = n.blocks[0]; ls = [l for k in range(len(b.receipts)) for l in ref_logs(b, k)]
    return [l for l in ls if logj.match(FILT[s["filt"]], l)] if s["filt"] != "none" else ls[:1]
def provable_index(s, n):
    """the block a tag refers to: the newest signed one / the checkpoints"""
    if s["blk"] == "safe": return [100 if n.hist else -1]
    if s["blk"] == "finalized": return [101 if n.hist else -2]
    if n.hist: return [101]
    return [i for i in n.blocks if i < n.head]
def truths(s, n):
    m = s["m"]
    idx = [0] if s["blk"] in ("num", "hash", "rng") else provable_index(s, n)
    if m == "bn": return [n.blocks[i].pl["blockNumber"] for i in ([101] if n.hist else [i for i in n.blocks if i < n.head])]
    t = n.blocks[0]; i = min(s["at"], max(0, len(t.pl["transactions"]) - 1))
    if m in acct.METHOD: return [acct.truth(dict(method=m, acct=s["acct"], keys=s["keys"]), n.blocks[k].st) for k in idx]
    if m in ("blknum", "blkhash"): return [ref_block(n.blocks[k], s["at"] % 2 == 0, n.txs(k)) for k in ([0] if m == "blkhash" else idx)]
    if m in ("txhash", "txbh", "txbn"): return [n.txs(0)[i]] if t.pl["transactions"] else []
    if m == "receipt": return [n.receipt(0, i)] if t.pl["transactions"] else []
def same(s, n, res):
    m = s["m"]
    if m in acct.METHOD: return any(acct.same(dict(method=m, acct=s["acct"]), res, t) for t in truths(s, n))
    if m == "bn": return res in [hex(x) for x in truths(s, n)]
    if m in ("logs", "verlogs"):
        f = request_of(s, n)[0] if m == "logs" else None
        sub = s["fk"] != "none"          # completeness of logs can not be proven: a lying node may hide some
        want = [l for b in n.blocks.values() for k in range(len(b.receipts)) for l in ref_logs(b, k) if logj.match(f, l)] if m == "logs" else sel_logs(s, n)
        nl = lambda l: json.dumps(logj.norm(l) | {"logIndex": 0 if sub else int(l["logIndex"], 16) if isinstance(l["logIndex"], str) else l["logIndex"]}, sort_keys=True)
        if sub and m == "logs": return isinstance(res, list) and not [x for x in map(nl, res) if x not in set(map(nl, want))]
        return isinstance(res, list) and sorted(map(nl, res)) == sorted(map(nl, want))
    for t in truths(s, n):
        d = [x for x in diff(res, t) if not (x[0].endswith(".v") or x[0] == ".contractAddress" or s["fk"] != "none" and m == "receipt" and (x[0].endswith(".logIndex") or x[0] in (".gasUsed", ".effectiveGasPrice")))]     # (findings of C15)
        if not d: return True
    return False
def why(s, n, res):
    return str([diff(res, t)[:3] for t in truths(s, n)][:2])[:400] if s["m"] in ("blknum", "blkhash", "txhash", "txbh", "txbn", "receipt") else str(res)[:300]
def corrupt(k, a, n, r):
    """a faulty answer of kind k instead of a"""
    ok = a if isinstance(a, bytes) else b""
    if k == "err": return Exception("connection refused")
    if k == "empty": return b""
    if k == "null": return b'{"jsonrpc":"2.0","id":1,"result":null,"data":null}'
    if k == "rpcerr": return b'{"jsonrpc":"2.0","id":1,"error":{"code":-32000,"message":"boom"}}'
    if k == "badargs": return b'{"jsonrpc":"2.0","id":1,"error":{"code":-32602,"message":"invalid params"}}'
    if k == "nores": return b'{"jsonrpc":"2.0","id":1}'
    if k == "type": return b'{"jsonrpc":"2.0","id":1,"result":[1,{"a":"0x"}],"data":"x"}'
    if k == "obj": return b'{"jsonrpc":"2.0","id":1,"result":{},"data":{}}'
    if k == "arr": return b'{"jsonrpc":"2.0","id":1,"result":[],"data":[]}'
    if k == "json": return b'{"jsonrpc":"2.0","id":1,"result":{"a":['
    if k == "html": return b"<html>502 Bad Gateway</html>"
    if k == "trunc": return ok[:len(ok) // 2]
    if k == "cut": return ok[:-1]
    if k == "head": return ok[:90]
    if k == "tiny": return ok[:40]
    if k == "sig65": return ok[-65:]
    if k == "zero": return bytes(len(ok))
    if k == "ff": return ok[:4] + b"\xff" * 40 + ok[44:]
    if k == "vals":      # well formed, but every hex value is altered
        out = bytearray(ok); i = 0
        while True:
            i = ok.find(b'"0x', i)
            if i < 0: break
            j = ok.find(b'"', i + 1)
            if j - i > 5: out[j - 1] = ord("1") if out[j - 1] != ord("1") else ord("2")
            i = j
        return bytes(out)
    if k == "short":     # hex values lose a byte
        import re
        return re.sub(rb'("0x[0-9a-f]+)[0-9a-f]{2}"', rb'\1"', ok)
    if k.partition(":")[0] in FIELD: return field_fault(*k.split(":"), ok)
    raise KeyError(k)
def paths(v, p=()):
    """the fields of a JSON answer; of an array only the first and the last element"""
    if isinstance(v, dict):
        for k in v: yield p + (k,); yield from paths(v[k], p + (k,))
    elif isinstance(v, list) and v:
        for i in sorted({0, len(v) - 1}): yield p + (i,); yield from paths(v[i], p + (i,))
FIELD = {"drop": None, "nul": lambda v: None, "num": lambda v: 12345678901234567890, "emp": lambda v: "", "x": lambda v: "0x", "max": lambda v: "0xffffffffffffffff", "idx": lambda v: "0x7fffffff", "long": lambda v: "0x" + "ab" * 300, "odd": lambda v: "0xabc", "list": lambda v: [v], "dup": lambda v: [v, v, v, v, v] if not isinstance(v, list) else v * 5, "esc": lambda v: "\\u0000\"", "bool": lambda v: True, "deep": lambda v: v}
def field_fault(k, i, ok):
    """field number i of the answer is altered"""
    try: d = json.loads(ok)
    except ValueError: return ok[:int(i) * 7 % max(1, len(ok))]
    ps = list(paths(d)); p = ps[int(i) % len(ps)]; o = d
    for x in p[:-1]: o = o[x]
    if k == "drop": del o[p[-1]]
    elif k == "deep":
        o[p[-1]] = "@@"; return json.dumps(d).encode().replace(b'"@@"', b"[" * 5000 + b"]" * 5000)
    else: o[p[-1]] = FIELD[k](o[p[-1]])
    return json.dumps(d).encode()
def serve(s, n, r, faulty, order=None):
    cl, a = n.answer(r)
    if cl == "block" and s.get("enc") == "json" and isinstance(a, bytes): a = n.beacon(r["url"]).signed_json()
    if cl == "rpc:eth_getCode":          # the code of an account is the same in all blocks of a run
        p = json.loads(bytes.fromhex(r["payload"]))["params"]
        if p[1] in ("latest", "safe", "finalized"): a = n.rpc("eth_getCode", [p[0], hex(n.blocks[s["d"] - 1 if s["blk"] == "latest" else -1 if s["blk"] in TAGS else 0].pl["blockNumber"])])
    if s["fcl"] == cl and faulty:
        if s["fk"] == "other":           # the answer to another question of the same kind: an older block
            o = n.blocks[-2]; cl2 = cl
            if cl == "block": return cl, o.signed()
            if cl == "parent": return cl, json.dumps({"data": [n.hdr(o)]}).encode()
            if cl == "header": return cl, json.dumps({"data": n.hdr(o)}).encode()
            if cl == "rpc:eth_getBlockByNumber" or cl == "rpc:eth_getBlockByHash": return cl, n.rpc("eth_getBlockByNumber", [hex(o.pl["blockNumber"]), False])
            if cl == "rpc:eth_getTransactionByHash": return cl, n.rpc(cl[4:], [hx_(keccak(o.pl["transactions"][0]))])
            if cl == "rpc:eth_getBlockReceipts": return cl, n.rpc(cl[4:], [hex(o.pl["blockNumber"])])
            if cl == "rpc:eth_getProof": p = json.loads(bytes.fromhex(r["payload"]))["params"]; return cl, n.rpc(cl[4:], [p[0], p[1], hex(o.pl["blockNumber"])])
            if cl == "rpc:eth_getCode": return cl, n.rpc(cl[4:], [hx_(acct.ADDR_["X"]), "latest"])
            if cl == "rpc:eth_getLogs": return cl, n.rpc(cl[4:], [{"fromBlock": hex(o.pl["blockNumber"]), "toBlock": hex(o.pl["blockNumber"])}])
            if cl == "updates": return cl, updates_response([n.upd(n.P - 4)])
            return cl, Exception("404")
        return cl, corrupt(s["fk"], a, n, r)
    return cl, a
TAGS = ("latest", "safe", "finalized")
MAXREQ = 120; NODES = 3
def prove(su, s, n, method, params, cs, flags, slot=0, log=None):
    """-> (proof, error)"""
    su.cmd("pnew", slot, sut_hx(method), sut_hx(json.dumps(params, separators=(",", ":"))), n.c.id, flags, sut_hx(cs) if cs else "-")
    seen = {}; total = 0
    for step in range(60):
        r = su.cmd("pstep", slot)
        if r["status"] != 2: break
        pend = [x for x in r["all"] if x["pending"]]
        if not pend:
            if r["flags"] & 4 and not (flags & 4): flags |= 4; continue           # continue in a worker
            return None, "stuck", total
        o = s["word"][step % len(s["word"])] if "word" in s else {"fwd": "a", "rev": "r", "one": "f", "last": "l"}[s["order"]]
        pend = {"a": pend, "r": pend[::-1], "f": pend[:1], "l": pend[-1:]}[o]
        for x in pend:
            total += 1; k = x["url"] + x["payload"]; seen[k] = seen.get(k, 0) + 1
            beh = lambda i: s["b"][i] if "b" in s and n.answer(x)[0] == s["fcl"] else None
            node = next((i for i in range(NODES) if not x["excl"] >> i & 1 and beh(i) != "down"), None)
            if node is None: su.rerr(x["ptr"], "all nodes failed", 0)
            else:
                bh = beh(node); sx = s if bh in (None, "ok") else dict(s, fk=s["rk"] if bh == "retry" else s["fk"])
                cl, a = serve(sx, n, x, bh in ("retry", "fatal") if bh else "b" not in s and s["fk"] != "none" and (s["fper"] == "always" or node == 0))
                if log is not None: log.append(cl)
                if isinstance(a, Exception): su.rerr(x["ptr"], str(a), node)
                else: su.resp(x["ptr"], a, node)
        if total > MAXREQ or any(v > NODES + 1 for v in seen.values()): return None, "endless", total
    else: return None, "endless", total
    if r["status"] == 0 and r["err"] and r["proof"]: return None, "both a proof and an error", total
    if r["proof"] and not r["err"]: return bytes.fromhex(r["proof"]), None, total
    return None, r["err"] or "none", total
def sut_hx(x):
    import sut; return sut.hx(x)
def client(su, s, n):
    """prepares the client's storage; returns the state it tells the prover, and its checkpoint"""
    c, P = n.c, n.P
    if s["client"] == "have": ps = [P - 1, P]
    elif s["client"] == "old": ps = [P - 2]
    elif s["client"] == "cp": return b"\x02" + n.boot_root, "0x" + n.boot_root.hex()
    else: return b"", "0x" + n.boot_root.hex()
    store_periods(su, c, [(p, comm(n.ch, p)) for p in ps]); return states_blob(ps), None
def job(su, x):
    s = x["s"]; n = the_net(s)
    su.push()
    try:
        su.cmd("time", 1735100000000)
        cs, cp = client(su, s, n)
        flags = (F_SYNC if s["sync"] == "yes" else 0) | (F_STORE if s["store"] == "yes" else 0) | (F_UV if s["uv"] == "yes" else 0) | F_CODE
        m, a = METHOD[s["m"]], request_of(s, n)
        if s.get("warm", "no") != "no":          # the same prover proved another block before
            w = N.net(s["chain"], "empty", 1, 0, 0, False, "none", {"near": 0x1234500, "x256": 0x123456700}[s["warm"]], "empty"); b = w.blocks[0]
            q = prove(su, dict(s, fk="none", fcl="-", order="fwd"), w, "eth_getBlockByNumber", [hex(b.pl["blockNumber"]), False], cs, flags)
            if q[0] is None: return "the prover fails for block %x: %s" % (b.pl["blockNumber"], q[1])
            su.cmd("pfree", 0)
        pr, err, total = prove(su, s, n, m, a, cs, flags)
        if err in ("stuck", "endless"): return "the prover does not terminate (%s after %d requests) for %s %s" % (err, total, m, a)
        if pr is None:
            if err == "none": return "the prover failed without an error message for %s %s" % (m, a)
            return "the prover fails for %s %s: %s" % (m, str(a)[:200], err) if x["ok"] == "yes" else None
        su.cmd("pfree", 0)
        def ans(r): return serve(s, n, r, s["fk"] != "none" and s["fper"] == "always")[1]
        st, res, ok, log = su.verify(pr, m, json.dumps(a), n.c.id, answer=ans, checkpoint=cp)
        if st not in ("success", "error"): return "verification ended with %s" % st
        if not (st == "success" and ok): return "the proof of the prover for %s %s is rejected: %s" % (m, str(a)[:200], res) if x["ok"] == "yes" else None
        if x["ok"] == "no": return "%s %s is answered with %s although it is not provable" % (m, str(a)[:200], str(res)[:200])
        if not same(s, n, res): return "%s %s yields a wrong result: %s" % (m, str(a)[:200], why(s, n, res))
    finally: su.pop()
    return None

BASE = dict(chain="main/electra", shape="six", d=3, skip=0, uns=0, hist="no", m="bal", blk="num", acct="A", keys="-", at=0, filt="all", client="have", sync="no", store="no", uv="no", body="some", enc="ssz", warm="no", fcl="-", fk="none", fper="always", order="fwd")
def async_job(su, x):
    """a scenario of Async.tla: nodes with different behaviour and a schedule"""
    s = dict(BASE, **x["s"]); s["b"] = [s["b"][str(i)] if isinstance(s["b"], dict) else s["b"][i] for i in range(NODES)]; n = the_net(s)
    if s["m"] == "storage": s["keys"] = "k1"
    if s["m"] == "blkhash": s["blk"] = "hash"
    log = []; m, a = METHOD[s["m"]], request_of(s, n)
    su.push()
    try:
        su.cmd("time", 1735100000000)
        cs, cp = client(su, s, n)
        pr, err, total = prove(su, s, n, m, a, cs, F_CODE, log=log)
        if err in ("stuck", "endless"): return "the prover does not terminate (%s after %d requests) for %s" % (err, total, m)
        if pr is None: return "the prover fails for %s: %s" % (m, err) if x["ok"] == "yes" else None
        if x["ok"] == "no" and s["fcl"] in log: return "the prover ignores the errors of %s" % s["fcl"]
        su.cmd("pfree", 0)
        st, res, ok, _ = su.verify(pr, m, json.dumps(a), n.c.id, answer=lambda r: n.answer(r)[1], checkpoint=cp)
        if not (st == "success" and ok): return "the proof of the prover for %s is rejected: %s" % (m, res)
        if not same(dict(s, fk="none"), n, res): return "%s yields a wrong result: %s" % (m, why(s, n, res))
    finally: su.pop()
    return None
