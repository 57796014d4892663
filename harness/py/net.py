"""An execution node, a beacon node and the chain store of a prover for a synthetic chain (environment of Prove.tla)."""
import functools, json
from blkw import *
from blkw import com as comm
import acct, logj
HSUM = C([("block_summary_root", B32), ("state_summary_root", B32)])
SUMS = List(HSUM, 1 << 24); ROOTS = Vector(B32, 8192)
def q(n): return hex(n)
def js(v, k=None):
    if isinstance(v, bool) or v is None: return v
    if isinstance(v, int): return hex(v)
    if isinstance(v, dict):      # what does not exist is left out or null, depending on the client
        gone = lambda a, b: a in ("to", "contractAddress") and b in ("0x", None)
        if v.get("transactionIndex", 0) % 2: return {a: None if gone(a, b) else js(b, a) for a, b in v.items()}
        return {a: js(b, a) for a, b in v.items() if not gone(a, b)}
    if isinstance(v, list): return [js(x) for x in v]
    if k in ("r", "s"): return hex(int(v, 16))
    return v
class Net:
    """target at index 0, `d` blocks after it; the first `skip` slots after the target are missed; the first `uns` blocks after it carry no signature"""
    body = "some"
    def __init__(s, chain, shape, d, skip, uns, hist, body="some", base=0x1234567, aux="two"):
        s.body = body; s.base = base
        s.ch, s.era = chain.split("/"); s.c = CH[s.ch]; s.chain, s.hist = chain, hist
        c = s.c; s.slot = SLOT[s.ch, s.era]; s.P = c.period(s.slot)
        s.blocks = {}                       # index -> block; the head chain has indices 100..
        tslot = s.slot - 5 * c.spp if hist else s.slot
        src = block(s.ch, s.era, shape, "cur"); aux = block(s.ch, s.era, aux, "oth")
        prev = None
        for i in range(-3, d + 1):
            prev = s.mk(i, tslot + i + (skip if i > 0 else 0), src if i == 0 else aux, prev, "cur" if i == 0 else "oth", s.base + i, signed=not 1 <= i <= uns)
        if hist:
            s.hq = c.period(tslot); byslot = {b.slot: b.root for b in s.blocks.values()}; base = s.hq * 8192 if c.spp == 8192 else tslot // 8192 * 8192
            s.roots = [byslot.get(base + j, rnd("root", j)) for j in range(8192)]
            last = None
            for j in range(8192):          # a missed slot repeats the root before it
                if base + j in byslot: last = byslot[base + j]
                elif last is not None and base + j <= tslot + d + skip: s.roots[j] = last
            n = s.P - c.forks[2] // (1 << c.epp)
            s.sums = [{"block_summary_root": rnd("bs", i), "state_summary_root": rnd("ss", i)} for i in range(n)]
            s.sums[s.hq - c.forks[2] // (1 << c.epp)]["block_summary_root"] = ROOTS.htr(s.roots)
            sr = SUMS.htr(s.sums)
            prev = None
            for i in range(100, 103):
                f = 64 if c.electra(s.slot + i) else 32
                tree = PTree({f + 27: sr}, "head%d" % i)
                prev = s.mk(i, s.slot + i, aux, prev, "oth", 0x1334567 + i, state=tree.root()); prev.tree = tree; prev.f = f
        s.index()
        s.bytx = {}
        for b in s.blocks.values():
            for i, r in enumerate(b.pl["transactions"]): s.bytx.setdefault(keccak(r), (b, i))
        # the target's transactions win (the other blocks repeat theirs)
        for i, r in enumerate(s.blocks[0].pl["transactions"]): s.bytx[keccak(r)] = (s.blocks[0], i)
        # checkpoint: the first block of period P-2
        s.cps = s.P - 2
        s.boot, s.boot_e, s.boot_root = make_bootstrap(c, s.cps * c.spp + 32, comm(s.ch, s.cps), salt="netboot/" + chain)
    def fields(s, i): return {}
    def root_of(s, st): return acct.state(st)["trie"].root()
    def index(s):
        s.head = max(s.blocks)
        s.byroot = {b.root: b for b in s.blocks.values()}
        s.byparent = {b.header["parentRoot"]: b for b in s.blocks.values()}
        s.bynum = {b.pl["blockNumber"]: b for b in s.blocks.values()}
        s.byhash = {b.pl["blockHash"]: b for b in s.blocks.values()}
    def mk(s, i, slot, src, prev, st, num, signed=True, state=None):
        c = s.c; p = dict(src.pl); p.update(blockNumber=num, blockHash=rnd("nethash", s.chain, num, s.hist), stateRoot=s.root_of(st), timestamp=1735000000 + 12 * (num & 0xffff))
        p.update(s.fields(i))
        if prev is not None:
            p["parentHash"] = prev.pl["blockHash"]
            bits = bits_n(512) if signed else [0] * 512
            sig = comm(s.ch, c.period(prev.slot + 1)).sign(signing_root(c, prev.root, prev.slot + 1), bits) if signed else b"\xc0" + bytes(95)
            agg = {"syncCommitteeBits": bits, "syncCommitteeSignature": sig}
        else: agg = None
        b = Block(c, slot, p, salt="net/%s/%d" % (s.chain, i), parent=prev.root if prev else None, agg=agg, state=state, kind=s.body if i in (0, 1) or s.body == "none" else "some")
        for k in ("ch", "rt", "receipts", "logs", "gas", "cum", "kinds", "logbase"): setattr(b, k, getattr(src, k))
        b.st = st; b.i = i; s.blocks[i] = b
        return b
    @functools.lru_cache(None)
    def txs(s, i):
        b = s.blocks[i]; memo = {}; out = []
        for k, r in enumerate(b.pl["transactions"]):
            if r not in memo: memo[r] = ref_tx(r, 0, b.pl)
            out.append(dict(memo[r], transactionIndex=k))
        return out
    def receipt(s, i, k):
        r = ref_receipt(s.blocks[i], k, s.txs(i)[k])
        if r["to"] == "0x":
            t = s.txs(i)[k]; r["contractAddress"] = hx_(keccak(rlp([bytes.fromhex(t["from"][2:]), t.get("nonce", 0)]))[12:])
        return r
    def block_json(s, b, full=False): return js(ref_block(b, full, s.txs(b.i)))
    # ---- answers
    def hdr(s, b): h = b.header; return {"root": hx_(b.root), "canonical": True, "header": {"message": {"slot": str(h["slot"]), "proposer_index": str(h["proposerIndex"]), "parent_root": hx_(h["parentRoot"]), "state_root": hx_(h["stateRoot"]), "body_root": hx_(h["bodyRoot"])}, "signature": "0x" + "00" * 96}}
    def update(s, p):
        c = s.c; return make_update(c, p * c.spp + 3000, comm(s.ch, p), comm(s.ch, p + 1), salt="net/u/%s/%d" % (s.chain, p))
    def updates(s, url):
        a = dict(x.split("=") for x in url.split("?")[1].split("&")); p, n = int(a["start_period"]), int(a["count"])
        return updates_response([s.upd(k) for k in range(p, min(p + n, s.P + 1))])
    @functools.lru_cache(None)
    def upd(s, p): u, e = s.update(p); return ser_update(u, e), e
    def beacon(s, u): x = u.rsplit("/", 1)[1]; return s.blocks[s.head] if x == "head" else s.byroot.get(bytes.fromhex(x[2:])) if x.startswith("0x") else None
    def answer(s, r):
        """(class, bytes or exception)"""
        if r["payload"]:
            try: pl = json.loads(bytes.fromhex(r["payload"]))
            except ValueError: return "rpc:?", b'{"jsonrpc":"2.0","id":null,"error":{"code":-32700,"message":"parse error"}}'
            m, a = pl["method"], pl["params"]
            return "rpc:" + m, s.rpc(m, a)
        u = r["url"]; nf = Exception("404")
        J = lambda x: json.dumps({"data": x}).encode()
        if u.startswith("eth/v2/beacon/blocks/"):
            b = s.beacon(u); return "block", b.signed() if b else nf
        if u.startswith("eth/v1/beacon/headers?parent_root="):
            b = s.byparent.get(bytes.fromhex(u.split("0x")[1])); return "parent", J([s.hdr(b)] if b else [])
        if u.startswith("eth/v1/beacon/headers/0x"):
            b = s.byroot.get(bytes.fromhex(u.split("0x")[1])); return "header", J(s.hdr(b)) if b else nf
        if u.endswith("finality_checkpoints"):
            f = lambda i: {"epoch": str(s.blocks[i].slot >> s.c.spe), "root": hx_(s.blocks[i].root)}
            h = 100 if s.hist else -1
            return "finality", J({"previous_justified": f(h), "current_justified": f(h), "finalized": f(101 if s.hist else -2)})
        if "light_client/bootstrap/" in u:
            return "bootstrap", lc_bootstrap_t(s.boot_e).ser(s.boot) if u.endswith(s.boot_root.hex()) else nf
        if "light_client/updates" in u or u.startswith("lcu_updates"): return "updates", s.updates(u)
        if u.endswith("historical_summaries"):
            b = next((b for b in s.blocks.values() if b.header["stateRoot"].hex() in u), None)
            if not s.hist or b is None or not hasattr(b, "tree"): return "summaries", nf
            return "summaries", J({"slot": str(b.slot), "historical_summaries": [{k: hx_(v) for k, v in x.items()} for x in s.sums], "proof": [hx_(x) for x in b.tree.branch(b.f + 27)]})
        if u.startswith("period_store/") and u.endswith("/blocks.ssz"): return "blocks", b"".join(s.roots) if s.hist and int(u.split("/")[1]) == s.hq else nf
        return "other", nf
    def find(s, t):
        if t == "latest": return s.blocks[s.head]
        if isinstance(t, str) and len(t) == 66: return s.byhash.get(bytes.fromhex(t[2:]))
        return s.bynum.get(int(t, 16)) if isinstance(t, str) and t.startswith("0x") else None
    def rpc(s, m, a):
        R = lambda x: json.dumps({"jsonrpc": "2.0", "id": 1, "result": x}).encode()
        E = lambda c, t: json.dumps({"jsonrpc": "2.0", "id": 1, "error": {"code": c, "message": t}}).encode()
        if m in ("eth_getBlockByNumber", "eth_getBlockByHash"):
            b = s.find(a[0]); return R(s.block_json(b, a[1]) if b else None)
        if m == "eth_getTransactionByHash":
            t = s.bytx.get(bytes.fromhex(a[0][2:])); return R(js(s.txs(t[0].i)[t[1]]) if t else None)
        if m == "eth_getBlockReceipts":
            b = s.find(a[0]); return R([js(s.receipt(b.i, k)) for k in range(len(b.receipts))] if b else None)
        if m == "eth_getLogs":
            f = a[0]; out = []
            rng = {k: (hex(s.blocks[s.head].pl["blockNumber"]) if f.get(k) == "latest" else f[k]) for k in ("fromBlock", "toBlock") if k in f}
            for b in sorted(s.blocks.values(), key=lambda b: b.pl["blockNumber"]):
                for k in range(len(b.receipts)): out += [l for l in ref_logs(b, k) if logj.match(dict(f, **rng), l)]
            return R([logj.tojson(dict(l)) if False else js(l) for l in out])
        if m == "eth_getProof":
            b = s.find(a[2])
            if not b: return E(-32000, "header not found")
            w = acct.state(b.st); ad = bytes.fromhex(a[0][2:]); who = next((k for k, v in acct.ADDR_.items() if v == ad), None)
            n, bal, sr, ch = w["recs"].get(who, (0, 0, EMPTY_ROOT, EMPTY_CODE))
            return R({"address": a[0], "accountProof": [hx_(x) for x in w["trie"].proof(keccak(ad))], "balance": hex(bal), "nonce": hex(n), "codeHash": hx_(ch), "storageHash": hx_(sr),
                      "storageProof": [{"key": k, "value": hex(w["stor"].get(who, {}).get(int(k, 16).to_bytes(32, "big"), 0)), "proof": [hx_(x) for x in acct.stproof(w, who, int(k, 16).to_bytes(32, "big"))]} for k in a[1]]})
        if m == "eth_getCode":
            ad = bytes.fromhex(a[0][2:]); who = next((k for k, v in acct.ADDR_.items() if v == ad), None)
            if a[1] not in ("latest", "safe", "finalized", "pending", "earliest") and not a[1].startswith("0x"): return E(-32602, "invalid argument 1: hex string without 0x prefix")
            b = s.find(a[1]) if a[1].startswith("0x") else None
            return R(hx_(acct.code(who, "cur" if b is None else b.st)))
        if m == "eth_blockNumber": return R(hex(s.blocks[s.head].pl["blockNumber"]))
        if m == "eth_getBalance":
            b = s.find(a[1]); who = next((k for k, v in acct.ADDR_.items() if v == bytes.fromhex(a[0][2:])), None)
            return R(hex(acct.state(b.st)["recs"].get(who, (0, 0))[1])) if b else E(-32000, "header not found")
        if m == "eth_getTransactionReceipt":
            t = s.bytx.get(bytes.fromhex(a[0][2:])); return R(js(s.receipt(t[0].i, t[1])) if t else None)
        return E(-32601, "the method %s does not exist" % m)
@functools.lru_cache(12)
def net(chain, shape, d, skip, uns, hist, body="some", base=0x1234567, aux="two"): return Net(chain, shape, d, skip, uns, hist, body, base, aux)
