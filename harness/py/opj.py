"""Builds the scenarios of OpSeq.tla."""
import json
import acct, txj
from opw import *
from blkj import diff
ID = {"op": 10, "base": 8453}
OTHER = {"op": "base", "base": "op"}
@functools.lru_cache(None)
def content(m, ch, st):
    """(kind of the proof, function from the block proof to the proof, data, method, args, truth, block)"""
    if m in ("bal", "nonce", "code", "storage", "proof"):
        s = dict(method=m, acct="A", keys={"storage": "k1", "proof": "l12"}.get(m, "-")); w = acct.state(st); b = chained(acct.blk(st), ch); A = acct.ADDR_["A"]
        sp = [{"key": acct.SK[k], "proof": acct.stproof(w, "A", acct.SK[k])} for k in acct.KS[s["keys"]]]
        args = [hx_(A)] + ([hx_(acct.SK["k1"])] if m == "storage" else [[hx_(acct.SK[k]) for k in acct.KS["l12"]]] if m == "proof" else []) + [hex(b.pl["blockNumber"])]
        return A_, lambda bp: {"accountProof": w["trie"].proof(keccak(A)), "address": A, "storageProof": sp, "block_proof": bp}, (2, acct.code("A", st)) if m == "code" else (0, None), acct.METHOD[m], args, (s, acct.truth(s, st)), b
    b = block(ch, "x", "opall", st); tj = txjson(ch, "x", "opall", st)
    if m in ("num", "hash", "full", "bn"):
        return B__, lambda bp: {"block_proof": bp}, (0, None), {"hash": "eth_getBlockByHash", "bn": "eth_blockNumber"}.get(m, "eth_getBlockByNumber"), [] if m == "bn" else [hx_(b.pl["blockHash"]) if m == "hash" else hex(b.pl["blockNumber"]), m == "full"], \
            b.pl["blockNumber"] if m == "bn" else ref_block(b, m == "full", tj), b
    i = 7
    if m.startswith("tx"):
        a = {"txhash": [tj[i]["hash"]], "txbh": [hx_(b.pl["blockHash"]), hex(i)], "txbn": [hex(b.pl["blockNumber"]), hex(i)]}[m]
        return T_, lambda bp: {"tx_proof": [], "transactionIndex": i, "block_proof": bp}, (0, None), {"txhash": "eth_getTransactionByHash", "txbh": "eth_getTransactionByBlockHashAndIndex", "txbn": "eth_getTransactionByBlockNumberAndIndex"}[m], a, tj[i], b
    if m == "receipt":
        return R_, lambda bp: {"transaction": b.pl["transactions"][i], "transactionIndex": i, "receipt_proof": b.rt.proof(index_key(i)), "tx_proof": [], "block_proof": bp}, (5, txj.receipt_data(b, i, tj[i])), "eth_getTransactionReceipt", [tj[i]["hash"]], ref_receipt(b, i, tj[i]), b
    ls = ref_logs(b, i); pr = lambda bp: [{"block_proof": bp, "txs": [{"transactionIndex": i, "proof": b.rt.proof(index_key(i)), "tx_proof": []}]}]
    if m == "logs": return L_, pr, (6, [txj.log_data(l) for l in ls]), "eth_getLogs", [{"fromBlock": hex(b.pl["blockNumber"]), "toBlock": hex(b.pl["blockNumber"]), "address": [hx_(a) for a in LOGA]}], ls, b
    js = [dict(l, blockNumber=hex(l["blockNumber"]), transactionIndex=hex(l["transactionIndex"]), logIndex=hex(l["logIndex"])) for l in ls]
    return L_, pr, (0, None), "eth_verifyLogs", js, ls, b
KIND = {"bal": "num", "nonce": "bn", "code": "receipt", "storage": "txhash", "proof": "logs", "num": "bal", "hash": "txhash", "full": "receipt", "bn": "bal", "txhash": "receipt", "txbh": "num", "txbn": "bal", "receipt": "txhash", "logs": "receipt", "vlogs": "num"}
def job(su, x):
    s = x["s"]; ch = s["chain"]; bch = OTHER[ch] if s["block"] == "cross" else ch; st = "evil" if s["block"] == "evil" else "cur"
    kind, mk, data, meth, args, truth, b = content(s["method"], bch, st)
    bp = preconf(b, s["sig"], s["dom"], s["pay"], s["frame"], key=EVIL if s["block"] == "evil" and s["sig"] not in ("chain",) else None)
    if s["ptype"] == "other":
        k2, mk2, d2, _, _, _, b2 = content(KIND[s["method"]], bch, st)
        kind, mk = k2, mk2; bp = preconf(b2, s["sig"], s["dom"], s["pay"], s["frame"], key=EVIL if s["block"] == "evil" and s["sig"] not in ("chain",) else None)
        if data[0] == 0: data = d2
    proof = (kind, mk(bp)) if s["ptype"] != "none" else (0, None)
    req = oprequest(proof, data, version={"eth": b"\0", "zero": b"\1"}.get(s["ver"], b"\6") + VERSION[1:])
    su.push()
    try:
        sequencers(su)
        r, res, ok, log = su.verify(req, meth, json.dumps(args), ID[ch])
        if r not in ("success", "error"): return "verification ended with %s" % r
        if not (r == "success" and ok): return "a block of the sequencer is rejected: %s %s: %s" % (meth, args, res) if x["ok"] == "yes" else None
        if x["ok"] == "no": return "%s %s accepts a block that the sequencer of chain %d has not signed: %s" % (meth, str(args)[:150], ID[ch], s)
        if kind == A_: good = acct.same(truth[0], res, truth[1])
        else:
            if isinstance(res, dict) and res.get("requestsHash") == hx_(sha(b"")): del res["requestsHash"]
            for t in [res] + (res.get("transactions", []) if isinstance(res, dict) else []):
                if isinstance(t, dict) and t.get("type") == "0x7e": t.pop("nonce", None)
            d = diff(res, truth); good = not d or explain(d, b)[0] == "legacy-v"          # (the known finding is reported by C32)
        if not good: return "%s %s yields %s instead of %s" % (meth, str(args)[:150], str(res)[:200], str(truth)[:200] if kind == A_ else diff(res, truth)[:4])
    finally: su.pop()
TABLE = {10: "aaaa45d9549eda09e70937013520214382ffc4a2", 8453: "af6e19be0f9ce7f8afd49a1824851023a8249e8a", 480: "2270d6ec8e760daa317dd978cfb98c8f144b1f3a", 7777777: "3dc8dfd0709c835cad15a6a27e089ff4cf4c9228", 130: "833c6f278474a78658af91ae8edc926fe33a230e"}    # the public signers; the entries of the other chains are placeholders nobody can sign for
def table(su):
    bad = []
    for c, a in TABLE.items():
        got = su.cmd("opconf", c)["a"]
        if (got or "").replace("0x", "") != a: bad.append("chain %d: the signer is %s, not %s" % (c, got, a))
    return bad
