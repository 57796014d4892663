"""Builds the terms of Account.tla for real."""
import functools, json
from world import *
C_ = MAINNET
PER = 1500
SLOT = PER * 8192 + 3000
ADDR_ = {k: rnd("acct", k)[:20] for k in "ABENZXYW"}
# keys that share a prefix of hashed nibbles with others appear by numbers
SK = {"k1": (1).to_bytes(32, "big"), "k2": rnd("slot2"), "k0": (0x7777).to_bytes(32, "big"), "k3": (3).to_bytes(32, "big")}; SK.update({"m%d" % i: rnd("slot m%d" % i) for i in range(40)})
@functools.lru_cache(None)
def com(p, c=C_): return committee("acct/%d/%d" % (c.id, p))
def code(k, st): return {"A": b"\x60\x01\x60\x02\x01" * 40 + st.encode(), "E": b"\x00", "X": b"\x60\x80" * 30}.get(k, b"")
@functools.lru_cache(None)
def state(st):
    """accounts, storage tries and the state trie of a block"""
    t = {"cur": 1, "oth": 2, "evil": 3, "forged": 4}[st]
    stor = {"A": {SK["k1"]: 0x10 + t, SK["k2"]: int.from_bytes(rnd("v", t), "big"), SK["k3"]: 5}, "X": {SK["k1"]: 0xbeef00 + t, SK["k2"]: 99, SK["k3"]: 7 * t}}
    for k in list(stor): stor[k].update({rnd("fill", k, i): i + 1 for i in range(20)})
    tries = {k: Trie({keccak(kk): rlp(v) for kk, v in m.items()}) for k, m in stor.items()}
    acc = {"A": (t, 10**18 * t + 7), "B": (300 + t, (1 << 127) + t), "E": (1, t), "Z": (0, 0), "X": (77 + t, 10**6 * t), "W": (88 + t, 3 * t)}
    recs = {k: (n, b, tries[k].root() if k in tries else EMPTY_ROOT, keccak(code(k, st)) if code(k, st) else EMPTY_CODE) for k, (n, b) in acc.items()}
    kv = {keccak(ADDR_[k]): account_rlp(*r) for k, r in recs.items()}
    kv.update({rnd("other account", i): account_rlp(i, i * 1000, EMPTY_ROOT, EMPTY_CODE) for i in range(300)})
    return dict(recs=recs, stor=stor, tries=tries, trie=Trie(kv))
@functools.lru_cache(None)
def blk(st):
    i = {"cur": 0, "oth": 1, "evil": 2}[st]
    return Block(C_, SLOT + 10 * i, payload("acct" + st, number=0x123456 + i, state_root=state(st)["trie"].root()), salt="acct" + st)
OTHER = {"cur": "oth", "oth": "cur", "evil": "cur"}
def stproof(w, who, k): return w["tries"][who].proof(keccak(k)) if who in w["tries"] else []
def truth(s, st):
    """the JSON result of the request in block st"""
    w = state(st); a = s["acct"]; n, b, sr, ch = w["recs"].get(a, (0, 0, EMPTY_ROOT, EMPTY_CODE))
    m = s["method"]; sv = w["stor"].get(a, {})
    if m == "bal": return hex(b)
    if m == "nonce": return hex(n)
    if m == "code": return "0x" + code(a, st).hex()
    if m == "storage": return "0x%064x" % sv.get(SK[s["keys"]], 0)
    return {"balance": hex(b), "nonce": hex(n), "codeHash": "0x" + ch.hex(), "storageHash": "0x" + sr.hex(), "accountProof": ["0x" + x.hex() for x in w["trie"].proof(keccak(ADDR_[a]))],
            "storageProof": [{"key": "0x" + SK[k].hex(), "value": sv.get(SK[k], 0), "proof": ["0x" + x.hex() for x in stproof(w, a, SK[k])]} for k in KS[s["keys"]]]}
KS = {"-": [], "l": [], "l1": ["k1"], "l12": ["k1", "k2"], "l10": ["k1", "k0"], "lmany": ["k1"] + ["m%d" % i for i in range(40)], "k1": ["k1"], "k2": ["k2"], "k0": ["k0"]}
METHOD = {"bal": "eth_getBalance", "nonce": "eth_getTransactionCount", "code": "eth_getCode", "storage": "eth_getStorageAt", "proof": "eth_getProof"}
def build(s, op=None):
    st = s["state"]; w = state(st); b = blk(st); o = blk(OTHER[st]); a = s["acct"]
    pa = {"ok": a, "other": "X", "absent": "Y"}[s["addr"]]
    path = ("W" if pa == "X" else "X") if s["acc"] == "other" else pa
    sw = state(OTHER[st]) if s["acc"] == "foreign" else w
    ap = sw["trie"].proof(keccak(ADDR_[path])); root = None
    if s["acc"] == "trunc": ap = ap[:-1]
    elif s["acc"] == "empty": ap = []
    elif s["acc"] == "swap": ap = [ap[-1]] + ap[:-1]
    elif s["acc"] == "tamper": ap = state("forged")["trie"].proof(keccak(ADDR_[path]))
    # storage
    ks = KS[s["keys"]]; t = s["sto"]; sp = []
    def alt(k): return {"k1": "k2", "k2": "k1", "k0": "k1"}[k]
    for i, k in enumerate(ks):
        key = SK[k]; pr = stproof(w, pa, key)
        if i == len(ks) - 1:
            if t == "otherkey": pr = stproof(w, pa, SK[alt(k)])
            elif t == "swapped": key = SK["k3"]; pr = stproof(w, pa, key)
            elif t == "badkey": key = key[:-1] + bytes([key[-1] ^ 0x80]); pr = stproof(w, pa, key)
            elif t == "otheracct": pr = stproof(w, "X", key)
            elif t == "trunc": pr = pr[:-1]
            elif t == "empty": pr = []
            elif t == "tamper": pr = stproof(state("forged"), "A", key)
            elif t == "absent": pr = Trie({rnd("unrelated", i): rlp(i + 1) for i in range(40)}).proof(keccak(key))    # proves that there is no such key - in another trie
            elif t == "foreign": pr = stproof(state(OTHER[st]), "A", key)
        sp.append({"key": key, "proof": pr})
    if t == "missing": sp = sp[:-1]
    elif t == "extra": sp = sp + [{"key": SK["k3"], "proof": stproof(w, pa, SK["k3"])}]
    elif t == "dup": sp = sp + sp[-1:]
    elif t == "reorder": sp = sp[::-1]
    if op:
        hb = o if s["hdr"] == "other" else b; evil = hb is blk("evil")
        kw = dict(key=op.EVIL if evil else None, pay="state" if s["hdr"] == "body" else "ok")
    # block
    kind = {"ok": {"num": "num", "hash": "hash"}.get(s["breq"], "none"), "wrongnum": "num", "wronghash": "hash"}.get(s["blk"], s["blk"])
    gs = [802] + ({"num": [806], "hash": [812], "none": []}[kind])
    bu = {"none": (0, None), "hash": (1, b.pl["blockHash"]), "num": (2, b.pl["blockNumber"])}[kind]
    if s["blk"] == "wrongnum": bu = (2, blk("cur").pl["blockNumber"] if st != "cur" else b.pl["blockNumber"] + 1)
    if s["blk"] == "wronghash": bu = (1, blk("cur").pl["blockHash"] if st != "cur" else rnd("wrong hash"))
    mp = b.mp(gs)
    if s["mp"] == "short": mp = mp[:-1]
    elif s["mp"] == "long": mp = mp + [bytes(32)]
    elif s["mp"] == "tamper": mp = mp[:1] + [rnd("x")] + mp[2:]
    elif s["mp"] == "empty": mp = []
    elif s["mp"] == "other": mp = o.mp(gs)
    elif s["mp"] == "swapped": mp = [mp[1], mp[0]] + mp[2:]
    hb = o if s["hdr"] == "other" else b
    h = dict(hb.header)
    if s["hdr"] == "body": h["bodyRoot"] = rnd("body")
    signer = com(PER) if hb is not blk("evil") else committee("acct/evil")
    data = (0, None); real = code(a, st)
    if s["method"] == "code":
        data = {"ok": (2, real), "none": (0, None), "wrong": (2, real[:-1] + b"\x5b"), "trunc": (2, real[:-1]), "empty": (2, b""), "type": (1, keccak(real))}[s["data"]]
        if s["data"] == "empty" and not real: data = (2, b"\0")
        if s["data"] == "trunc" and not real: data = (2, bytes(32))
    elif s["data"] == "given": data = (3, 10**30) if s["method"] != "storage" else (1, rnd("given"))
    elif s["data"] == "type": data = (2, b"\x01\x02")
    if op: req = op.oprequest((op.A_, {"accountProof": ap, "address": ADDR_[pa], "storageProof": sp, "block_proof": op.preconf(op.chained(hb), **kw)}), data)
    else: req = request(proof=(P_ACCOUNT, {"accountProof": ap, "address": ADDR_[pa], "storageProof": sp, "state_proof": {"block": bu, "proof": mp, "header": h, "header_proof": hb.sigproof(signer)}}), data=data)
    cur = blk("cur"); br = s["breq"]
    ba = {"num": hex(cur.pl["blockNumber"]), "hash": "0x" + cur.pl["blockHash"].hex(), "object": {"blockNumber": hex(cur.pl["blockNumber"])}}.get(br, br)
    an = s["argn"]
    hx_ = lambda x: "0x" + (x.hex().upper() if an == "upper" else x.hex())
    def near(x, what):
        i = {what + "head": 0, what + "tail": len(x) - 1}.get(an)
        return x if i is None else x[:i] + bytes([x[i] ^ 4]) + x[i + 1:]
    def kx(x): return hex(int.from_bytes(x, "big")) if an == "shortkey" else hx_(near(x, "key"))
    if an == "num32": ba = hex(cur.pl["blockNumber"] + (1 << 32))
    elif br == "hash": ba = "0x" + near(cur.pl["blockHash"], "hash").hex()
    args = [hx_(near(ADDR_[a], "addr"))]
    if s["method"] == "storage": args.append(kx(SK[s["keys"]]))
    if s["method"] == "proof": args.append([kx(SK[k]) for k in ks])
    args.append(ba)
    return req, METHOD[s["method"]], json.dumps(args)
def num(x): return int(x, 16) if isinstance(x, str) else x
def same(s, got, want):
    if s["method"] in ("bal", "nonce"): return isinstance(got, str) and got.startswith("0x") and int(got, 16) == int(want, 16)
    if s["method"] == "storage": return isinstance(got, str) and len(got) == 66 and int(got, 16) == int(want, 16)
    if s["method"] == "code": return got == want or (want == "0x" and got == "0x")
    if not isinstance(got, dict): return False
    for k in ("balance", "nonce"):
        if num(got.get(k, "x" if k not in got else 0)) != num(want[k]): return False
    for k in ("codeHash", "storageHash", "accountProof"):
        if got.get(k) != want[k]: return False
    sp = got.get("storageProof", [])
    if s["acct"] in ("N", "Y") and sp == []: return True    # nothing is stored for an account that does not exist
    return [(x["key"], num(x["value"]), x["proof"]) for x in sp] == [(x["key"], x["value"], x["proof"]) for x in want["storageProof"]]
def job(su, x, op=None):
    s = x["s"]; req, m, args = build(s, op)
    su.push()
    try:
        if op: op.sequencers(su)
        else: store_periods(su, C_, [(PER - 1, com(PER - 1)), (PER, com(PER))])
        st, res, ok, log = su.verify(req, m, args, 10 if op else C_.id)
        got = st == "success" and ok
        if st not in ("success", "error"): return "verification ended with %s" % st
        if not got: return "an honest proof is rejected: %s" % res if x["ok"] == "yes" else None
        blocks = ["cur"] if s["breq"] in ("num", "hash", "object") else ["cur", "oth"]
        if x["ok"] != "no" and not any(same(s, res, truth(s, b)) for b in blocks): return "%s %s yields %s instead of %s" % (m, args, res, [truth(s, b) for b in blocks])
        if x["ok"] == "no": return "a proof that does not establish the result of %s %s is accepted" % (m, args)
    finally: su.pop()
    return None
