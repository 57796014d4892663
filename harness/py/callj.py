"""Executions of Call.tla as real contracts, states, proofs and requests."""
import json, opw
from acct import *
from exec_layer import *
ACC = {k: rnd("call", k)[:20] for k in "ABCNX"}; ACC["P"] = bytes(19) + b"\4"
KEY = {"k1": (1).to_bytes(32, "big"), "k2": rnd("slot2"), "k3": (3).to_bytes(32, "big")}
REAL = {"A": {"k1": 11, "k3": 13}, "B": {"k1": 21, "k3": 23}}
BAL = {"A": 10**18 + 1, "B": 7, "C": 1 << 100}; OBAL = 0x424242
W = lambda v: v.to_bytes(32, "big")
def push(v, n=2): return bytes([0x5f + n]) + v.to_bytes(n, "big")
P20 = lambda a: b"\x73" + ACC[a]
P32 = lambda k: b"\x7f" + KEY[k]
def program(p):
    out, pos = b"", 0x100
    put = lambda: push(pos) + b"\x52"
    for o in p["prog"]:
        k = o["o"]; obs = 1
        if k == "sload": out += P32(o["k"]) + b"\x54" + put()
        elif k == "sstore": out += push(o["v"]) + P32(o["k"]) + b"\x55"; obs = 0
        elif k == "log": out += push(o["v"]) + push(0x20) + b"\x52" + push(o["v"]) + push(0x20) + push(0x20) + b"\xa1"; obs = 0
        elif k in ("bal", "size", "hash"): out += P20(o["a"]) + {"bal": b"\x31", "size": b"\x3b", "hash": b"\x3f"}[k] + put()
        elif k in ("copy", "copyend"): out += push(32) + push(3 if k == "copy" else 9000) + push(pos) + P20(o["a"]) + b"\x3c"
        elif k == "self": out += b"\x30" + put()
        elif k == "call":
            out += push(o["id"]) + push(0) + b"\x52" + push(32 * o["words"]) + push(pos + 32) + push(32) + push(0) + (push(0) if o["kind"] in ("call", "ccode") else b"") + P20(o["a"]) + b"\x5a"
            out += {"call": b"\xf1", "ccode": b"\xf2", "dcall": b"\xf4", "scall": b"\xfa"}[o["kind"]] + put(); obs = 1 + o["words"]
        pos += 32 * obs
    return out + (push(pos - 0x100) + push(0x100) if p["end"] in ("ret", "rev") else b"") + {"ret": b"\xf3", "rev": b"\xfd", "inv": b"\xfe", "stop": b"\0", "viol": b"\xfe"}[p["end"]]
def contract(who, progs):
    ps = sorted((p for p in progs if p["code"] == who), key=lambda p: p["id"]); pos = len(ps) * 11 + 1; disp = b""; body = b""
    for p in ps:
        disp += push(0, 1) + b"\x35" + push(p["id"]) + b"\x14" + push(pos + len(body)) + b"\x57"
        body += b"\x5b" + program(p)
    return disp + b"\0" + body if True else b""
def codes(x):
    """code on the chain, code in use"""
    use = {k: contract(k, x["progs"]) for k in "AB"}
    chain = {k: b"\xfe\x01\x02" if "code" in x["ov"][k] else use[k] for k in "AB"}
    return dict(chain, C=b"", N=b""), dict(use, C=b"", N=b"")
def value(o, x, use):
    a = o["a"]; t = o["t"]
    if t == "int": return W(o["v"])
    if t == "self": return bytes(12) + ACC[a]
    if t == "bal": return W(OBAL if x["ov"].get(a) == "bal" else BAL.get(a, 0))
    if t == "size": return W(len(use[a]))
    if t == "hash": return bytes(32) if a == "N" else keccak(use[a])
    if t == "copy": return use[a][3:35].ljust(32, b"\0")
    return bytes(32)
def states(chain, t=0):
    stor = {k: {KEY[kk]: v + t for kk, v in REAL[k].items()} for k in "AB"}
    for k in stor: stor[k].update({rnd("fill", k, i): i + 1 for i in range(6)})
    tries = {k: Trie({keccak(kk): rlp(v) for kk, v in m.items()}) for k, m in stor.items()}
    kv = {keccak(ACC[k]): account_rlp(1, BAL[k] + t, tries[k].root() if k in tries else EMPTY_ROOT, keccak(chain[k]) if chain[k] else EMPTY_CODE) for k in "ABC"}
    kv.update({rnd("other account", i): account_rlp(i, i * 1000, EMPTY_ROOT, EMPTY_CODE) for i in range(8)})
    return Trie(kv), tries
def overrides(x, use):
    o = {}
    for k in "AB":
        v = x["ov"][k]; e = {}
        if v == "bal": e["balance"] = hex(OBAL)
        if "code" in v: e["code"] = "0x" + use[k].hex()
        if v in ("state", "statecode"): e["state"] = {"0x" + KEY["k1"].hex(): "0x" + W(77).hex()}
        if v == "diff": e["stateDiff"] = {"0x" + KEY["k1"].hex(): "0x" + W(78).hex()}
        if v == "empty": e["state"] = {}
        if e: o["0x" + ACC[k].hex()] = e
    return o
def build(x):
    chain, use = codes(x); dev = x["dev"]; trie, tries = states(chain); ftrie, ftries = states(chain, 1); fetch = {}
    need = sorted({u[1] for u in x["used"] if u[1] != "P"} | {"A"}); ks = {a: sorted({u[2] for u in x["used"] if u[0] == "key" and u[1] == a}) for a in need}
    code_of = {u[1] for u in x["used"] if u[0] in ("code", "hash")} | {"A"}
    if dev == "noacc": need = need[:-1]
    accs = []; lastk = [(a, k) for a in need for k in ks[a]][-1:]
    for a in need:
        sp = [{"key": KEY[k], "proof": (ftries if dev == "badkey" and [(a, k)] == lastk else tries)[a].proof(keccak(KEY[k])) if not (dev == "goneKey" and [(a, k)] == lastk) else Trie({rnd("unrelated", i): rlp(i + 1) for i in range(20)}).proof(keccak(KEY[k]))}
              for k in ks[a] if not (dev == "nokey" and [(a, k)] == lastk)]
        c = (0, False)
        if a in code_of and chain[a] and ("code" not in x["ov"].get(a, "") or dev == "keepcode"):
            c = (1, chain[a])
            if dev == "fetch" or dev == "badfetch": c = (0, True); fetch[ACC[a].hex()] = chain[a]
            if dev == "unused" and a == need[-1] or dev == "unusedall": c = (0, False)
            if dev == "badcode" and a == need[-1]: c = (1, chain[a][:-1] + bytes([chain[a][-1] ^ 1]))
            if dev == "emptycode" and a == need[-1]: c = (1, b"")
        accs.append({"accountProof": (ftrie if dev == "forged" and a == need[-1] else trie).proof(keccak(ACC[a])), "address": ACC["X"] if dev == "addr" and a == need[-1] else ACC[a], "code": c, "storageProof": sp})
    if dev == "none2": accs = accs[::-1]
    b = Block(C_, SLOT, payload("call", number=0x123456, state_root=(ftrie if dev == "root" else trie).root()), salt="call")
    kind = (2, b.pl["blockNumber"]); mp = b.mp([802, 806])
    truth = b"".join(value(o, x, use) for o in x["res"])
    data = {"data": (2, truth), "wrongdata": (2, truth[:-1] + bytes([truth[-1] ^ 1]) if truth else b"\1"), "longdata": (2, truth + b"\0")}.get(dev, (0, None))
    if x.get("op"):
        bp = opw.preconf(opw.chained(b, "op"), key=opw.EVIL if dev == "sig" else None); req = opw.oprequest((opw.CALL_, {"accounts": accs, "block_proof": bp}), data)
    else: req = request(proof=(P_CALL, {"accounts": accs, "state_proof": {"block": kind, "proof": mp, "header": b.header, "header_proof": b.sigproof(committee("evil") if dev == "sig" else com(PER))}}), data=data)
    ov = overrides(x, use)
    args = [{"to": "0x" + ACC["A"].hex(), "data": "0x" + W(1).hex()}, hex(b.pl["blockNumber"] + (1 if dev == "reqblk" else 0))] + ([ov] if ov else [])
    def answer(q):
        p = json.loads(bytes.fromhex(q["payload"])); c = fetch[p["params"][0][2:]]
        return json.dumps({"id": 1, "result": "0x" + (c if dev != "badfetch" else c[:-1] + b"\x5b").hex()}).encode()
    return req, args, truth, answer
def job(su, x):
    chain_req, args, truth, answer = build(x); ok_ = x["ok"]
    for m in ("eth_call", "colibri_simulateTransaction") if x["dev"] not in ("data", "wrongdata", "longdata") else ("eth_call",):
        su.push()
        if x.get("op"): opw.sequencers(su)
        try:
            store_periods(su, C_, [(PER - 1, com(PER - 1)), (PER, com(PER))])
            st, res, ok, log = su.verify(chain_req, m, json.dumps(args), 10 if x.get("op") else C_.id, answer=answer)
        finally: su.pop()
        what = ("(OP) " if x.get("op") else "") + "%s of %s with overrides %s and %s" % (m, [(p["id"], p["code"], [(o["o"], o["k"] or o["a"], o["v"] or o["kind"], o["id"]) for o in p["prog"]], p["end"]) for p in x["progs"]], x["ov"], x["dev"])
        if st not in ("success", "error"): return "%s ends with %s" % (what, st)
        if st != "success" or not ok:
            if ok_ == "yes": return "%s is rejected: %s" % (what, res)
            continue
        if ok_ == "no": return "%s is accepted with %s" % (what, str(res)[:300])
        if m == "eth_call":
            if res != "0x" + truth.hex(): return "%s yields %s instead of 0x%s" % (what, res, truth.hex())
            continue
        if res.get("returnValue") != "0x" + truth.hex(): return "%s yields %s instead of 0x%s" % (what, res.get("returnValue"), truth.hex())
        want = [("0x" + ACC[a].hex(), "0x" + W(v).hex(), ["0x" + W(v).hex()]) for a, v in x["logs"]]
        got = [(l["raw"]["address"], l["raw"]["data"], l["raw"]["topics"]) for l in res.get("logs", [])]
        if got != want: return "%s emits %s instead of %s" % (what, [(a[-4:], d[-4:]) for a, d, t in got], [(a[-4:], d[-4:]) for a, d, t in want])
        if res.get("status") not in ("0x1", 1): return "%s has the status %s" % (what, res.get("status"))
