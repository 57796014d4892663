"""Blocks with transactions and receipts, and the JSON a node would return for them (reference for Block.tla, Tx.tla, Receipt.tla, Logs.tla)."""
import functools
from world import *
SK_ = [0xA11CE, 0xB0B0B0, 12345]
CH = {"main": MAINNET, "sepo": SEPOLIA, "gno": GNOSIS, "chi": CHIADO}
# a slot in the middle of a period, per chain and fork
SLOT = {("main", "deneb"): 9000000, ("main", "electra"): 12000000, ("main", "fulu"): 14000000, ("sepo", "deneb"): 5000000, ("sepo", "electra"): 8000000, ("gno", "deneb"): 15000000, ("gno", "electra"): 22000000, ("chi", "electra"): 17000000, ("chi", "deneb"): 10000000}
@functools.lru_cache(None)
def com(c, p): return committee("blk/%s/%d" % (c, p))
BASEFEE = 999999993
def fee(ch, shape): return 11 * 10**9 + 7 if shape in ("many", "wd", "two") else BASEFEE
def tx(name, ch, t=0, fee=BASEFEE):
    """raw transaction `name`; t distinguishes blocks"""
    c = CH[ch].id
    to = rnd("to", name)[:20]; al = ((rnd("al1")[:20], (rnd("k1"), rnd("k2"))), (rnd("al2")[:20], ()))
    k = dict(chain=c, nonce=3 + t, to=to, value=10**17 + t, gas=50000, gas_price=9 * 10**9, max_fee=30 * 10**9, prio=10**9)
    return {"leg": lambda: make_tx(0, SK_[0], **k), "legu": lambda: make_tx(0, SK_[1], unprotected=True, **k), "al": lambda: make_tx(1, SK_[0], **dict(k, access=al, data=b"\x01")),
            "dyn": lambda: make_tx(2, SK_[1], **k), "cap": lambda: make_tx(2, SK_[1], **dict(k, max_fee=fee + 5, prio=10**9)), "blob": lambda: make_tx(3, SK_[0], **dict(k, blobs=(b"\x01" + rnd("b1")[1:], b"\x01" + rnd("b2")[1:]), max_blob=77)),
            "auth": lambda: make_tx(4, SK_[1], **dict(k, auths=((c, rnd("au")[:20], 9, 1, int.from_bytes(rnd("ar"), "big") >> 9, int.from_bytes(rnd("as"), "big") >> 1), (0, rnd("au2")[:20], 0, 0, 5, 6), (0x1234567, rnd("au3")[:20], 0x1020304050607, 1, 1 << 255, 1 << 247)))),
            "dep": lambda: deposit(t, to, b"\x01\x02", 10**18, 10**16), "depsys": lambda: deposit(t, to, rnd("l1 attributes") * 8, 0, 0, sys=1), "depcreate": lambda: deposit(t, b"", b"\x60\x00", 0, 7), "depbig": lambda: deposit(t, to, b"", (1 << 200) + 1, (1 << 199) + 3, gas=1 << 35),
            "create": lambda: make_tx(2, SK_[0], **dict(k, to=b"", data=rnd("code") * 12)), "create0": lambda: make_tx(0, SK_[0], **dict(k, to=b"", data=b"\x60\x00")),
            "big": lambda: make_tx(2, SK_[0], **dict(k, value=(1 << 200) + 5, data=b"\x00" + rnd("d") * 40, nonce=(1 << 40) + t, gas=1 << 33)),
            "zero": lambda: make_tx(2, SK_[0], **dict(k, value=0, data=b"", nonce=0, gas=60000 + t, access=((bytes(20), (bytes(32),)),))),
            "alk": lambda: make_tx(1, SK_[1], **dict(k, access=tuple((rnd("q", i)[:20], tuple(rnd("kk", i, j) for j in range(i))) for i in range(5)))),
            "blob9": lambda: make_tx(3, SK_[1], **dict(k, nonce=127 + t, blobs=tuple(b"\x01" + rnd("b9", i)[1:] for i in range(9)), max_blob=1 << 35)), "in55": lambda: make_tx(2, SK_[0], **dict(k, data=(rnd("in") * 9)[:55], nonce=128 + t)), "in56": lambda: make_tx(0, SK_[1], **dict(k, data=(rnd("in") * 9)[:56], nonce=255 + t, value=128)),
            "in7f": lambda: make_tx(1, SK_[0], **dict(k, data=b"\x7f", value=127 + t, gas=65535)), "in80": lambda: make_tx(2, SK_[1], **dict(k, data=b"\x80", value=255 + t, gas=65536)), "in256": lambda: make_tx(0, SK_[0], **dict(k, data=(rnd("in") * 9)[:256], nonce=256 + t, value=(1 << 64) + t, gas_price=1 << 50)),
            "rs": lambda: make_tx(0, 12345, nonce=675), "ss": lambda: make_tx(0, 12345, nonce=45), "rs2": lambda: make_tx(2, 12345, nonce=1092), "ss2": lambda: make_tx(2, 12345, nonce=332)}[name]()
def deposit(t, to, data, mint, value, sys=0, gas=1000000): return b"\x7e" + rlp([rnd("source", t, to, value), rnd("depositor")[:20], to, mint, value, gas, sys, data])
KINDS = ["leg", "legu", "al", "dyn", "cap", "blob", "auth", "create", "create0", "big", "zero", "alk", "rs", "ss", "rs2", "ss2", "blob9", "in55", "in56", "in7f", "in80", "in256"]
OPKINDS = ["depsys", "dep", "depbig", "depcreate", "leg", "legu", "al", "dyn", "cap", "auth", "create", "create0", "big", "zero", "alk", "in56"]
SHAPES = {"empty": [], "all": KINDS, "wd": ["dyn"], "many": (["leg", "dyn", "al"] * 90)[:260], "opall": OPKINDS, "opsix": ["depsys", "dep", "leg", "dyn", "cap", "create"], "two": ["al", "leg"], "six": ["al", "leg", "dyn", "cap", "blob", "create"]}
def hx_(b): return "0x" + bytes(b).hex()
def I(b): return int.from_bytes(b, "big")
def ref_tx(raw, i, pl):
    """JSON of a transaction, decoded from its bytes"""
    k = raw[0] if raw[0] < 0x7f else 0
    f = rlp_dec(raw[1:] if k else raw)
    if k == 0x7e: f = f + [b"", b""]
    j = {"hash": hx_(keccak(raw)), "blockHash": hx_(pl["blockHash"]), "blockNumber": pl["blockNumber"], "transactionIndex": i, "type": k, "r": hx_(f[-2].rjust(32, b"\0")), "s": hx_(f[-1].rjust(32, b"\0"))}
    if k == 0x7e:
        src, frm, to, mint, value, gas, sys_, data = f[:8]
        return {"hash": j["hash"], "blockHash": j["blockHash"], "blockNumber": j["blockNumber"], "transactionIndex": i, "type": k, "sourceHash": hx_(src), "from": hx_(frm), "to": hx_(to), "mint": I(mint), "value": I(value),
                "gas": I(gas), "isSystemTx": bool(I(sys_)), "input": hx_(data), "gasPrice": 0, "depositReceiptVersion": 1}
    n = {0: ["nonce", "gasPrice", "gas", "to", "value", "input", "v"], 1: ["chainId", "nonce", "gasPrice", "gas", "to", "value", "input", "accessList", "yParity"]}.get(k, ["chainId", "nonce", "maxPriorityFeePerGas", "maxFeePerGas", "gas", "to", "value", "input", "accessList"] + {2: [], 3: ["maxFeePerBlobGas", "blobVersionedHashes"], 4: ["authorizationList"]}.get(k, []) + ["yParity"])
    for x, v in zip(n, f):
        j[x] = hx_(v) if x in ("to", "input") else [{"address": hx_(a), "storageKeys": [hx_(q) for q in ks]} for a, ks in v] if x == "accessList" else [hx_(q) for q in v] if x == "blobVersionedHashes" else \
            [{"chainId": I(a[0]), "address": hx_(a[1]), "nonce": I(a[2]), "yParity": I(a[3]), "r": hx_(a[4].rjust(32, b"\0")), "s": hx_(a[5].rjust(32, b"\0"))} for a in v] if x == "authorizationList" else I(v)
    if k == 0:
        v = j["v"]
        if v >= 35: j["chainId"] = (v - 35) // 2; j["yParity"] = (v - 35) & 1
        else: j["yParity"] = v - 27
        d = keccak(rlp(f[:6] + ([j["chainId"], 0, 0] if v >= 35 else [])))
    else: j["v"] = j["yParity"]; d = keccak(raw[:1] + rlp(f[:-3]))
    if k >= 2: j["gasPrice"] = min(j["maxFeePerGas"], pl["baseFeePerGas"] + j["maxPriorityFeePerGas"])
    j["from"] = hx_(keccak(secp_recover(d, I(f[-2]), I(f[-1]), j["yParity"]))[12:])
    j.pop("maxFeePerBlobGas", None)      # not part of the result format
    return j
def ref_block(b, full, txj):
    p = b.pl
    wt = index_trie([rlp([w["index"], w["validatorIndex"], w["address"], w["amount"]]) for w in p["withdrawals"]])
    return {"number": p["blockNumber"], "hash": hx_(p["blockHash"]), "transactions": txj if full else [t["hash"] for t in txj], "logsBloom": hx_(p["logsBloom"]), "receiptsRoot": hx_(p["receiptsRoot"]),
            "extraData": hx_(p["extraData"]), "withdrawalsRoot": hx_(getattr(b, "isthmus", None) or wt.root()), "baseFeePerGas": p["baseFeePerGas"], "nonce": hx_(bytes(8)), "miner": hx_(p["feeRecipient"]),
            "withdrawals": [{"index": w["index"], "validatorIndex": w["validatorIndex"], "address": hx_(w["address"]), "amount": w["amount"]} for w in p["withdrawals"]],
            "excessBlobGas": p["excessBlobGas"], "blobGasUsed": p["blobGasUsed"], "difficulty": 0, "gasLimit": p["gasLimit"], "gasUsed": p["gasUsed"], "timestamp": p["timestamp"], "mixHash": hx_(p["prevRandao"]),
            "parentHash": hx_(p["parentHash"]), "uncles": [], "parentBeaconBlockRoot": hx_(b.header["parentRoot"]), "sha3Uncles": hx_(keccak(rlp([]))), "stateRoot": hx_(p["stateRoot"]),
            "transactionsRoot": hx_(index_trie(p["transactions"]).root())}
LOGA = [rnd("logaddr", i)[:20] for i in range(3)]
TOP = [rnd("topic", i) for i in range(5)]
def logs_of(i, n, t):
    """logs of transaction i of n in block t: varied numbers of logs and topics"""
    if i == 3: return logs_of(7, n, t) + [{"address": LOGA[2], "topics": [TOP[4]] * (j % 4 + 1), "data": rnd("manylogs", t, j) * (j % 3)} for j in range(9)]
    shape = [[(0, [0, 1]), (1, [0])], [], [(0, [2])], [(1, []), (0, [0, 1, 2, 3]), (2, [0, 1])]][i % 4]
    return [{"address": LOGA[a], "topics": [TOP[k] for k in ts], "data": (rnd("logdata", t, i, j) * 4)[:[0, 32, 33, 100][(i + j) % 4]]} for j, (a, ts) in enumerate(shape)]
@functools.lru_cache(None)
def block(ch, era, shape, st):
    t = {"cur": 0, "oth": 1, "evil": 2}[st]; c = CH[ch]
    raws = {}
    def get(n):
        if n not in raws: raws[n] = tx(n, ch, t, fee(ch, shape))
        return raws[n]
    txs = [get(n) for n in SHAPES[shape]]
    kinds = [x[0] if x[0] < 0x7f else 0 for x in txs]
    lg = [logs_of(i, len(txs), t) for i in range(len(txs))]
    gas = [21000 + 100 * i for i in range(len(txs))]; cum = [sum(gas[:i + 1]) for i in range(len(txs))]
    rcs = [make_receipt(k, 0 if i % 5 == 3 else 1, cum[i], lg[i], *([(1 << 33) + 5 + i, 1] if k == 0x7e else [])) for i, k in enumerate(kinds)]
    wds = [{"index": 100 + i, "validatorIndex": 7 * i, "address": rnd("wd", i)[:20], "amount": (0, 1, 127, 128, 1 << 40)[i % 5]} for i in range({"empty": 0, "all": 3, "wd": 8 if c.gno else 16, "many": 1, "two": 0, "six": 2}.get(shape, 0))]
    allogs = [l for x in lg for l in x]
    rt = index_trie(rcs)
    pl = payload("bw/%s/%s/%s/%s" % (ch, era, shape, st), number=0x1234567 + t, txs=txs, receipts_root=rt.root(), timestamp=1735000000 + t, base_fee=fee(ch, shape), withdrawals=wds, extra=b"" if shape == "empty" else rnd("x") if shape == "all" else b"geth", bloomv=bloom(allogs), gas_used=cum[-1] if cum else 0)
    if shape == "empty": pl["baseFeePerGas"] = (1 << 70) + 9; pl["blobGasUsed"] = 0; pl["excessBlobGas"] = 0
    b = Block(c, SLOT[ch, era] + t * 3, pl, salt="bw" + st)
    if shape in ("opall", "opsix"): b.isthmus = rnd("withdrawals storage", st)
    b.ch, b.rt, b.receipts, b.logs, b.gas, b.cum, b.kinds = ch, rt, rcs, lg, gas, cum, kinds
    first = 0; b.logbase = []
    for x in lg: b.logbase.append(first); first += len(x)
    return b
@functools.lru_cache(None)
def txjson(ch, era, shape, st):
    b = block(ch, era, shape, st); memo = {}
    out = []
    for i, r in enumerate(b.pl["transactions"]):
        if r not in memo: memo[r] = ref_tx(r, 0, b.pl)
        out.append(dict(memo[r], transactionIndex=i))
    return out
def ref_logs(b, i):
    raw = b.pl["transactions"][i]
    return [{"blockHash": hx_(b.pl["blockHash"]), "blockNumber": b.pl["blockNumber"], "transactionHash": hx_(keccak(raw)), "transactionIndex": i, "address": hx_(l["address"]), "logIndex": b.logbase[i] + j, "removed": False, "topics": [hx_(x) for x in l["topics"]], "data": hx_(l["data"])} for j, l in enumerate(b.logs[i])]
def ref_receipt(b, i, txj):
    status, cum, bl, _, *dep = rlp_dec(b.receipts[i][1:] if b.kinds[i] else b.receipts[i])
    return dict({"depositNonce": I(dep[0]), "depositReceiptVersion": I(dep[1])} if dep else {}, **{"blockHash": hx_(b.pl["blockHash"]), "blockNumber": b.pl["blockNumber"], "transactionHash": txj["hash"], "transactionIndex": i, "type": b.kinds[i], "from": txj["from"], "to": txj["to"], "cumulativeGasUsed": b.cum[i], "gasUsed": b.gas[i],
            "logs": ref_logs(b, i), "logsBloom": hx_(bl), "status": I(status), "effectiveGasPrice": txj["gasPrice"]})
NUMS = {"blockNumber", "transactionIndex", "type", "nonce", "gas", "gasPrice", "value", "chainId", "v", "yParity", "maxFeePerGas", "maxPriorityFeePerGas", "number", "baseFeePerGas", "excessBlobGas", "blobGasUsed", "difficulty", "gasLimit", "gasUsed", "timestamp", "index", "validatorIndex", "amount",
        "cumulativeGasUsed", "status", "effectiveGasPrice", "logIndex", "depositNonce", "depositReceiptVersion"}
def neutral(v): return v in ("0x0", "0x", None, [], 0, False)
def diff(got, want, path=""):
    """list of (path, got, want); numbers are compared by value; fields that do not exist for this type may be present if neutral"""
    if isinstance(want, dict):
        if not isinstance(got, dict): return [(path, got, want)]
        out = []
        for k in want:
            if k not in got: out.append((path + "." + k, None, want[k])) if not (k == "to" and want[k] == "0x") else None
            else: out += diff(got[k], want[k], path + "." + k)
        for k in got:
            if k not in want and not neutral(got[k]) and not (k == "chainId" and want.get("v") in (27, 28)):   # unprotected: no chain id, the format can not omit it
                out.append((path + "." + k, got[k], None))
        return out
    if isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want): return [(path, got, want)]
        return [d for i, (g, w) in enumerate(zip(got, want)) for d in diff(g, w, path + ".%d" % i)]
    if isinstance(want, bool): return [] if got is want else [(path, got, want)]
    if isinstance(want, int):
        try: ok = isinstance(got, str) and got.startswith("0x") and int(got, 16) == want and (got == "0x0" or got[2] != "0")
        except ValueError: ok = False
        return [] if ok else [(path, got, want)]
    if path.endswith(".to") and want == "0x": return [] if got in ("0x", None) else [(path, got, want)]
    return [] if got == want else [(path, got, want)]
def explain(ds, b):
    """maps the differences to keys of known findings; returns (key or None, text)"""
    keys = set()
    for p, g, w in ds:
        last = p.rsplit(".", 1)[-1]
        if last == "withdrawalsRoot" and b and g == hx_((PAYLOAD_GNO if b.chain.gno else PAYLOAD).t("withdrawals").htr(b.pl["withdrawals"])): keys.add("withdrawalsRoot")
        elif last == "v" and isinstance(w, int) and w > 255 and g == hex(w & 255): keys.add("legacy-v")
        else: return None, "; ".join("%s is %s instead of %s" % (p_, str(g_)[:120], str(w_)[:120]) for p_, g_, w_ in ds[:4])
    return (sorted(keys)[0] if len(keys) == 1 else "+".join(sorted(keys))), "; ".join("%s is %s instead of %s" % (p_, str(g_)[:120], str(w_)[:120]) for p_, g_, w_ in ds[:4])
