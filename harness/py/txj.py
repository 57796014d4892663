"""Builds the scenarios of Tx.tla."""
import json
from blkw import *
from blkj import mpvar, hdrvar, sigp, run, settle, OTHER, OPS
LEN = {"opall": 16, "all": 22, "wd": 1, "two": 2, "many": 260}
def bl(s, st): ch, era = s["chain"].split("/"); return block(ch, era, s["shape"], st)
def flip(b): return bytes([b[0] ^ 0x20]) + b[1:-1] + bytes([b[-1] ^ 1]) if len(b) > 1 else bytes([b[0] ^ 1])
@functools.lru_cache(None)
def body_root_tx(raw): return None
def receipt_data(b, i, txj):
    j = ref_receipt(b, i, txj)
    H = lambda x: bytes.fromhex(x[2:])
    return {"_optmask": 0xfffe if "depositNonce" in j else 0x3ffe, "blockHash": H(j["blockHash"]), "blockNumber": j["blockNumber"], "transactionHash": H(j["transactionHash"]), "transactionIndex": i, "type": j["type"], "from": H(j["from"]), "to": H(j["to"]), "cumulativeGasUsed": j["cumulativeGasUsed"], "gasUsed": j["gasUsed"],
            "logs": [log_data(l) for l in j["logs"]], "logsBloom": H(j["logsBloom"]), "status": j["status"], "effectiveGasPrice": j["effectiveGasPrice"], "depositNonce": j.get("depositNonce", 0), "depositReceiptVersion": j.get("depositReceiptVersion", 0)}
def log_data(l):
    H = lambda x: bytes.fromhex(x[2:])
    return {"blockHash": H(l["blockHash"]), "blockNumber": l["blockNumber"], "transactionHash": H(l["transactionHash"]), "transactionIndex": l["transactionIndex"], "address": H(l["address"]), "logIndex": l["logIndex"], "removed": 1 if l["removed"] else 0, "topics": [H(t) for t in l["topics"]], "data": H(l["data"])}
def alter_log(l, d):
    l = dict(l)
    if d == "logaddr": l["address"] = flip(l["address"])
    elif d in ("logtopic", "logtopicdrop") and not l["topics"]: l["topics"] = [bytes(32)]
    elif d == "logtopic": l["topics"] = [flip(l["topics"][0])] + l["topics"][1:]
    elif d == "logtopicdrop": l["topics"] = l["topics"][:-1]
    elif d == "logtopicadd": l["topics"] = l["topics"] + [bytes(32)]
    elif d == "logdata": l["data"] = l["data"] + b"\0"
    elif d == "logblockhash": l["blockHash"] = flip(l["blockHash"])
    elif d == "lognumber": l["blockNumber"] += 1
    elif d == "logtxhash": l["transactionHash"] = flip(l["transactionHash"])
    elif d == "logtxidx": l["transactionIndex"] ^= 1
    elif d == "logindex": l["logIndex"] += 3
    elif d == "logremoved": l["removed"] = 1
    return l
def alter_receipt(r, d):
    r = dict(r)
    if d == "logdrop": r["logs"] = r["logs"][:-1]
    elif d == "logextra": r["logs"] = r["logs"] + [dict(blockHash=r["blockHash"], blockNumber=r["blockNumber"], transactionHash=r["transactionHash"], transactionIndex=r["transactionIndex"], address=LOGA[0], logIndex=0, removed=0, topics=[TOP[0]], data=b"")]
    elif d == "logswap": r["logs"] = r["logs"][::-1]
    elif d.startswith("log") and d != "logsBloom" and not r["logs"]: return alter_receipt(r, "logextra")
    elif d.startswith("log") and d != "logsBloom": r["logs"] = [alter_log(r["logs"][0], d)] + r["logs"][1:]
    elif d == "mask0": r["_optmask"] = 0; r["depositNonce"] = 5
    elif d[:2] == "mb": r["_optmask"] &= ~(1 << int(d[2:]))
    elif d == "maskstatus": r["_optmask"] &= ~(1 << 12)
    elif d == "masklogs": r["_optmask"] &= ~(1 << 10)
    elif d == "maskdeposit": r["_optmask"] |= 1 << 14; r["depositNonce"] = 77
    elif d in ("depositNonce", "depositReceiptVersion"): r[d] = 9
    elif d == "status": r[d] ^= 1
    elif d == "type": r[d] = (r[d] + 1) % 5
    elif isinstance(r[d], int): r[d] ^= 1
    else: r[d] = flip(r[d])
    return r
def txroot(raw): return TX.htr(raw)
def build(s):
    st = s["state"]; b = bl(s, st); o = bl(s, OTHER[st]); cur = bl(s, "cur"); ch, era = s["chain"].split("/")
    n = LEN[s["shape"]]; at = s["at"]; oa = at + 1 if at + 1 < n else at - 1
    pos = {"ok": at, "other": oa}.get(s["idx"]); rp_ = at if pos is None else pos
    idx = {"ok": at, "other": oa, "past": n, "wrap": at + (1 << 20), "huge": 0xffffffff}[s["idx"]]
    raw = b.pl["transactions"][rp_]
    raw = {"ok": lambda: raw, "other": lambda: b.pl["transactions"][oa if rp_ == at else at], "byte": lambda: flip(raw), "foreign": lambda: o.pl["transactions"][rp_], "trunc": lambda: raw[:-1], "ext": lambda: raw + b"\0", "empty": lambda: b""}[s["tx"]]()
    gi = g_tx(idx if idx < (1 << 20) else rp_)
    gs = ([806, 812, 811] if s["method"] != "receipt" else [806, 812, 803]) + [gi]
    hb, h = hdrvar(s, b, o)
    hp_ = {"blockNumber": b.pl["blockNumber"] + (s["bn"] == "wrong"), "blockHash": flip(b.pl["blockHash"]) if s["bh"] == "wrong" else b.pl["blockHash"], "transaction": raw, "transactionIndex": idx, "header": h, "header_proof": sigp(hb, st == "evil" and s["hdr"] != "other")}
    mp = mpvar(s["mp"], b.mp(gs), lambda: o.mp(gs))
    data = (0, None)
    if s["method"] == "receipt":
        rt = b.rt; t = s["rp"]
        pr = rt.proof(index_key(rp_))
        if t == "other": pr = rt.proof(index_key(oa if rp_ == at else at))
        elif t == "trunc": pr = pr[:-1]
        elif t == "empty": pr = []
        elif t == "extra": pr = pr + [pr[-1]]
        elif t == "foreign": pr = o.rt.proof(index_key(rp_))
        elif t == "forged":
            k = b.kinds[rp_]; lst = list(b.receipts); lst[rp_] = make_receipt(k, 1, 5, []); pr = index_trie(lst).proof(index_key(rp_))
        proof = (P_RECEIPT, dict(hp_, receipt_proof=pr, block_proof=mp))
        rj = receipt_data(b, rp_, txjson(ch, era, s["shape"], st)[rp_])
        if s["tx"] != "ok" or s["bh"] != "ok" or s["bn"] != "ok" or s["idx"] in ("past", "wrap", "huge") or t == "forged":    # the prover adapts the data to its other lies where it can
            rj = dict(rj, blockNumber=hp_["blockNumber"], blockHash=hp_["blockHash"], transactionHash=keccak(raw), transactionIndex=idx)
            rj["logs"] = [dict(l, blockNumber=hp_["blockNumber"], blockHash=hp_["blockHash"], transactionHash=keccak(raw), transactionIndex=idx) for l in rj["logs"]]
            if t == "forged": rj.update(status=1, cumulativeGasUsed=5, logs=[], logsBloom=bytes(256))
            if s["tx"] in ("other", "foreign"):
                try: q = ref_tx(raw, 0, b.pl); rj["from"] = bytes.fromhex(q["from"][2:]); rj["to"] = bytes.fromhex(q["to"][2:]); rj["type"] = q["type"]
                except Exception: pass
        if s["dat"] != "ok": rj = alter_receipt(rj, s["dat"])
        data = (5, rj) if s["data"] == "ok" else (2, b"\1\2")
        meth, args = "eth_getTransactionReceipt", [hx_(keccak(cur.pl["transactions"][at]))]
    else:
        proof = (P_TX, dict(hp_, baseFeePerGas=b.pl["baseFeePerGas"] + (s["bf"] == "wrong"), proof=mp))
        if s["data"] == "given": data = (1, rnd("given"))
        elif s["data"] == "type": data = (2, b"\1")
        if s["method"] == "hash": meth, args = "eth_getTransactionByHash", [hx_(keccak(cur.pl["transactions"][at]))]
        elif s["method"] == "bh": meth, args = "eth_getTransactionByBlockHashAndIndex", [hx_(cur.pl["blockHash"]), hex(at)]
        else: meth, args = "eth_getTransactionByBlockNumberAndIndex", [hex(cur.pl["blockNumber"]), hex(at)]
    r = s["req"]
    if r == "upper": args[0] = "0x" + args[0][2:].upper()
    elif r == "badhash": args[0] = args[0][:-1] + ("0" if args[0][-1] != "0" else "1")
    elif r == "headhash": args[0] = "0x" + ("0" if args[0][2] != "0" else "1") + args[0][3:]
    elif r == "shorthash": args[0] = args[0][:-2]
    elif r == "longhash": args[0] += "00"
    elif r in ("idx32", "idx64"): args[1] = hex(at + (1 << int(r[3:])))
    elif r in ("num32", "num64"): args[0] = hex(cur.pl["blockNumber"] + (1 << int(r[3:])))
    elif r in ("parent", "stateroot"): args[0] = hx_(cur.pl["parentHash" if r == "parent" else "stateRoot"])
    elif r == "badidx": args[1] = hex(at + 1)
    elif r == "tag": args[0] = "latest"
    elif r == "nextblock": args[0] = hex(cur.pl["blockNumber"] + 1)
    if ch in OPS:
        import opw
        q = hb; kw = dict(key=opw.EVIL if st == "evil" and hb is b else None, pay="state" if s["hdr"] == "body" else "ok")
        bp = opw.preconf(hb, **kw)
        pr_ = (opw.R_, {"transaction": raw, "transactionIndex": idx, "receipt_proof": pr, "tx_proof": [], "block_proof": bp}) if s["method"] == "receipt" else (opw.T_, {"tx_proof": [], "transactionIndex": idx, "block_proof": bp})
        return opw.oprequest(pr_, data), meth, json.dumps(args)
    return request(proof=proof, data=data), meth, json.dumps(args)
@functools.lru_cache(4096)
def truth(method, chain, shape, at, st="cur"):
    ch, era = chain.split("/"); t = txjson(ch, era, shape, st)[at]
    return ref_receipt(block(ch, era, shape, st), at, t) if method == "receipt" else t
UNBOUND = {"gasUsed": "gasUsed", "effectiveGasPrice": "effectiveGasPrice", "logindex": "logIndex"}
def job(su, x):
    s = x["s"]; req, m, args = build(s); b = bl(s, "cur")
    su.push()
    try:
        st, res, ok, log = run(su, b.chain, b.slot, b.ch, req, m, args)
        if s["req"] == "tag" and st == "error": return None
        at = s["at"] + (s["req"] == "badidx")
        t = truth(s["method"], s["chain"], s["shape"], at, "oth" if s["req"] == "nextblock" else "cur") if at < LEN[s["shape"]] else {}
        if s["dat"] in UNBOUND and st == "success" and ok and s == dict(s, state="cur", idx="ok", tx="ok", bh="ok", bn="ok", rp="ok", mp="ok", hdr="ok", data="ok", req=s["req"]):
            d = diff(res, t)
            if d and all(q[0].rsplit(".", 1)[-1] == UNBOUND[s["dat"]] for q in d): return (UNBOUND[s["dat"]], "%s %s yields a wrong result: %s" % (m, args, d))
        if s["dat"] in ("depositNonce", "depositReceiptVersion") and st == "success" and ok and not diff(res, t) and s == dict(s, state="cur", idx="ok", tx="ok", bh="ok", bn="ok", rp="ok", mp="ok", hdr="ok", data="ok"): return None  # invisible in the result
        return settle(x, st, res, ok, [t] if s["req"] in ("ok", "upper", "tag", "badidx", "nextblock") and t else [], m, args, b)
    finally: su.pop()
