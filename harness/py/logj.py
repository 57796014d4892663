"""Builds the scenarios of Logs.tla."""
import json
from blkw import *
from blkj import mpvar, hdrvar, sigp, run
from txj import log_data, alter_log, flip
CHN = "main", "electra", "six"
OP = []
def B_(st): return block(*(OP or CHN), st)
A0, A1, A2 = (hx_(a) for a in LOGA)
T = [hx_(t) for t in TOP]
def filt(f):
    n = B_("cur").pl["blockNumber"]
    return {"none": {}, "emptyarr": {"address": [], "topics": []}, "addr0": {"address": A0}, "addrs": {"address": [A0, A2]}, "t0": {"topics": [T[0]]}, "nt1": {"topics": [None, T[1]]}, "or": {"topics": [[T[0], T[2]]]}, "t0n": {"topics": [T[0], None]},
            "or2": {"topics": [[T[0], T[2]], [T[1]]]}, "hash": {"blockHash": hx_(B_("cur").pl["blockHash"])}, "range": {"fromBlock": hex(n), "toBlock": hex(n + 1)}, "one": {"fromBlock": hex(n), "toBlock": hex(n)}, "upto": {"toBlock": hex(n)}, "tag": {"fromBlock": hex(n), "toBlock": "latest"},
            "two": {"address": A1, "topics": [T[0]]}, "empty": {"address": hx_(rnd("nobody")[:20])}, "upper": {"address": "0x" + A0[2:].upper(), "topics": ["0x" + T[0][2:].upper()]}, "deep": {"topics": [None, None, None, T[3]]}}[f]
def match(f, l, strict=True):
    if "blockHash" in f and l["blockHash"] != f["blockHash"].lower(): return False
    if f.get("fromBlock", "").startswith("0x") and l["blockNumber"] < int(f["fromBlock"], 16): return False
    if f.get("toBlock", "").startswith("0x") and l["blockNumber"] > int(f["toBlock"], 16): return False
    def m(x, v): return x is None or (isinstance(x, list) and (not x or any(m(y, v) for y in x))) or (isinstance(x, str) and x.lower() == v)
    if not m(f.get("address"), l["address"]): return False
    ts = f.get("topics") or []
    if strict and len(ts) > len(l["topics"]): return False
    return all((i < len(l["topics"]) and m(t, l["topics"][i])) if t is not None else True for i, t in enumerate(ts))
def genuine(sts): return [l for st in sts for i in range(6) for l in ref_logs(B_(st), i)]
def tojson(l): return {"blockHash": hx_(l["blockHash"]), "blockNumber": hex(l["blockNumber"]), "transactionHash": hx_(l["transactionHash"]), "transactionIndex": hex(l["transactionIndex"]), "address": hx_(l["address"]), "logIndex": hex(l["logIndex"]), "removed": bool(l["removed"]), "topics": [hx_(t) for t in l["topics"]], "data": hx_(l["data"])}
def build(s):
    f = filt(s["filter"]); sts = ["cur"] if s["filter"] in ("hash", "one", "upto") else ["cur", s["state"]]
    logs, pr = [], []          # pr: [block state, [tx indexes]]
    for st in sts:
        b = B_(st); ids = []
        for i in range(6):
            hit = [l for l in ref_logs(b, i) if match(f, l) or (st == "evil" and match(f, dict(l, blockNumber=B_("oth").pl["blockNumber"])))]
            if hit: ids.append(i); logs += [log_data(l) for l in hit]
        if ids: pr.append([st, ids])
    lg = s["lg"]
    if lg == "extra": logs.append([log_data(l) for st, ids in pr for i in ids for l in ref_logs(B_(st), i) if not match(f, l, False)][-1:] or None); logs[-1] = logs[-1][0] if logs[-1] else None
    if lg == "extra" and logs[-1] is None:    # all logs of these transactions match: use a proven one of another transaction
        logs.pop(); st, ids = pr[-1]; rest = [i for i in range(6) if i not in ids and any(not match(f, l, False) for l in ref_logs(B_(st), i))]
        if rest: ids.append(rest[-1]); ids.sort(); logs.append([log_data(l) for l in ref_logs(B_(st), rest[-1]) if not match(f, l, False)][0])
        else:    # only the block range is wrong: bring in the other block
            pr.append(["oth", [0]]); logs.append(log_data(ref_logs(B_("oth"), 0)[0]))
    # the log that is altered: the first one that belongs to the last block and has topics
    at = s.get("at", "last"); devn = 0 if at == "first" else len(pr) - 1
    lastst, ids = pr[devn] if pr else ("cur", [0]); last = B_(lastst)
    cand = [i for i, l in enumerate(logs) if l["blockNumber"] == last.pl["blockNumber"] and l["topics"]] or [len(logs) - 1]
    if at != "last": cand = [i for i in cand if logs[i]["transactionIndex"] == ids[0]] or cand
    deep = [i for i in cand if logs and logs[i]["transactionIndex"] == 3] or cand
    k = {"first": cand[0], "last": cand[-1], "deep": deep[-1]}[s.get("pos", "first")]
    if lg == "drop": logs = [l for i, l in enumerate(logs) if i != k]
    elif lg == "dup": logs.append(logs[k])
    elif lg == "order": logs = logs[::-1]
    elif lg == "unproven": logs.append(log_data(dict(ref_logs(B_("cur"), 0)[0], transactionIndex=1)) if s["filter"] != "empty" else dict(log_data(ref_logs(B_("cur"), 0)[0]), address=rnd("nobody")[:20]))
    elif lg == "fabricated": logs.append(dict(logs[k], data=rnd("fabricated")))
    elif lg == "wrongtx":
        oi = [i for i in ids if i != logs[k]["transactionIndex"]] or [(ids[0] + 2) % 6]
        logs[k] = dict(logs[k], transactionIndex=oi[0], transactionHash=keccak(last.pl["transactions"][oi[0]]), data=logs[k]["data"] + b"\x01")
        if oi[0] not in ids: ids.append(oi[0]); ids.sort()
    elif lg == "wrongblock":
        other = B_("cur" if lastst != "cur" else "oth"); logs[k] = dict(logs[k], blockNumber=other.pl["blockNumber"], blockHash=other.pl["blockHash"])
        if not any(B_(st) is other for st, _ in pr): pr.append(["oth", [logs[k]["transactionIndex"]]])
    elif lg in ("addr", "topic", "topicdrop", "topicadd", "data", "blockhash", "txhash", "txidx", "removed", "index", "number"): logs[k] = alter_log(logs[k], "log" + lg)
    proof = []
    for n, (st, ids) in enumerate(pr):
        b = B_(st); o = B_("cur" if st != "cur" else "oth"); dev = n == (devn if at == "first" else len(pr) - 1) and (st == lastst)
        t = []
        for m, i in enumerate(ids):
            raw = b.pl["transactions"][i]; rp = b.rt.proof(index_key(i)); ix = i
            if dev and m == (len(ids) - 1 if at == "last" else 0):
                if s["tx"] == "byte": raw = flip(raw)
                elif s["tx"] == "other": raw = b.pl["transactions"][(i + 1) % 6]
                r = s["rp"]
                if r == "trunc": rp = rp[:-1]
                elif r == "other": rp = b.rt.proof(index_key((i + 2) % 6))
                elif r == "empty": rp = []
                elif r == "foreign": rp = o.rt.proof(index_key(i))
                elif r == "forged":
                    mine = [l for l in logs if l["transactionIndex"] == i and l["blockNumber"] == b.pl["blockNumber"]]
                    lst = list(b.receipts); lst[i] = make_receipt(b.kinds[i], 1, 5, mine); rp = index_trie(lst).proof(index_key(i))
                if s["tx"] != "ok": logs = [dict(l, transactionHash=keccak(raw)) if l["transactionIndex"] == i and l["blockNumber"] == b.pl["blockNumber"] else l for l in logs]
            t.append({"transaction": raw, "transactionIndex": ix, "proof": rp})
        gs = [806, 812, 803] + [g_tx(i) for i in ids]
        bn, bh = b.pl["blockNumber"], b.pl["blockHash"]
        if dev and s["bn"] == "wrong": logs = [dict(l, blockNumber=bn + 1) if l["blockNumber"] == bn else l for l in logs]; bn += 1
        if dev and s["bh"] == "wrong": logs = [dict(l, blockHash=flip(bh)) if l["blockHash"] == bh else l for l in logs]; bh = flip(bh)
        mp = b.mp(gs); hb, h = b, b.header
        if dev: mp = mpvar(s["mp"], mp, lambda: o.mp(gs)); hb, h = hdrvar(s, b, o)
        if dev and s["pb"] == "duptx": t.append(t[-1])
        elif dev and s["pb"] == "dupfake":     # a second entry for the same position with another transaction
            fake = b.pl["transactions"][(ids[-1] + 1) % 6]; t.append(dict(t[-1], transaction=fake))
            logs = [dict(l, transactionHash=keccak(fake)) if l["transactionIndex"] == ids[-1] and l["blockNumber"] == bn else l for l in logs]
        elif dev and s["pb"] == "droptx": t = t[:-1]; mp = b.mp([806, 812, 803] + [g_tx(i) for i in ids[:-1]]) if len(ids) > 1 else b.mp([806, 812, 803])
        proof.append({"blockNumber": bn, "blockHash": bh, "proof": mp, "header": h, "header_proof": sigp(hb, st == "evil" and hb is b), "txs": t})
    if s["pb"] == "dropblock": proof = proof[:-1]
    elif s["pb"] == "dupblock": proof = proof + proof[-1:]
    elif s["pb"] == "none": proof = []
    elif s["pb"] == "reorder": proof = proof[::-1]
    js = [tojson(l) for l in logs]
    if OP:
        import opw
        lst = []
        for e, (st, ids) in zip(proof, pr):
            b = B_(st); dev = st == lastst
            hb = B_("cur" if st != "cur" else "oth") if dev and s["hdr"] == "other" else b
            lst.append({"block_proof": opw.preconf(hb, key=opw.EVIL if st == "evil" and hb is b else None, pay="state" if dev and s["hdr"] == "body" else "ok"), "txs": [{"transactionIndex": t["transactionIndex"], "proof": t["proof"], "tx_proof": []} for t in e["txs"]]})
        if s["pb"] == "dupblock": lst = lst + lst[-1:]
        elif s["pb"] == "reorder": lst = lst[::-1]
        if s["method"] == "get": return opw.oprequest((opw.L_, lst), {"ok": (6, logs), "none": (0, None), "type": (2, b"\x08\0\0\0")}[s["data"]]), "eth_getLogs", json.dumps([f]), js
        return opw.oprequest((opw.L_, lst), (6, logs[:1]) if s["data"] == "given" else (0, None)), "eth_verifyLogs", json.dumps(js), js
    if s["method"] == "get":
        data = {"ok": (6, logs), "none": (0, None), "type": (2, b"\x08\0\0\0")}[s["data"]]
        return request(proof=(P_LOGS, proof), data=data), "eth_getLogs", json.dumps([f]), js
    return request(proof=(P_LOGS, proof), data=(6, logs[:1]) if s["data"] == "given" else (0, None)), "eth_verifyLogs", json.dumps(js), js
def norm(l): return {k: (int(v, 16) if k in NUMS and isinstance(v, str) else v) for k, v in l.items() if k != "logIndex"}
def job(su, x):
    s = x["s"]; req, m, args, js = build(s); b = B_("cur")
    su.push()
    try:
        st, res, ok, log = run(su, b.chain, b.slot, b.ch, req, m, args)
        if st not in ("success", "error"): return "verification ended with %s" % st
        if not (st == "success" and ok): return "honest logs are rejected: %s" % res if x["ok"] == "yes" else None
        if not isinstance(res, list): return "%s yields %s" % (m, str(res)[:200])
        gen = genuine(["cur", "oth"]); f = filt(s["filter"])
        for l in res:
            n = norm(l); g = [q for q in gen if {k: v for k, v in q.items() if k != "logIndex"} == n]
            if not g: return "%s yields a log that is not in the chain: %s" % (m, l)
            if m == "eth_getLogs" and not match(f, g[0], strict=False): return "%s %s yields a log that was not asked for: %s" % (m, args, l)
        if m == "eth_verifyLogs" and [norm(l) for l in res] != [norm(l) for l in js]: return "eth_verifyLogs confirms other logs than those given"
        if x["ok"] == "yes" and [norm(l) for l in res] != [norm(l) for l in js]: return "%s changes the logs" % m
        bad = [l for l in res if not any(q["logIndex"] == int(l["logIndex"], 16) for q in gen if {k: v for k, v in q.items() if k != "logIndex"} == norm(l))]
        if bad and s["lg"] == "index" and x["ok"] == "no" and s == dict(s, state="oth", pb=s["pb"] if s["pb"] in ("duptx", "dupblock") else "ok", tx="ok", rp="ok", bh="ok", bn="ok", mp="ok", hdr="ok", data="ok"): return ("logIndex", "%s accepts a log with a wrong logIndex: %s" % (m, bad[0]))
        if x["ok"] == "no": return "%s %s accepts a proof that does not establish its logs" % (m, args[:300])
    finally: su.pop()
