"""Builds the scenarios of Dispatch.tla from the honest messages of the other specifications."""
import functools, json
import acct, blkj, txj, logj
from blkw import *
CHN = "main/electra"
RAW = lambda: block("main", "electra", "six", "cur").pl["transactions"][2]
NAMES = {"unc": "eth_getUncleByBlockHashAndIndex", "cnt": "eth_getBlockTransactionCountByNumber", "fee": "eth_feeHistory", "gas": "eth_gasPrice", "est": "eth_estimateGas", "send": "eth_sendRawTransaction", "blob": "eth_blobBaseFee", "brec": "eth_getBlockReceipts",
         "unccnt": "eth_getUncleCountByBlockNumber", "filter": "eth_newFilter", "sub": "eth_subscribe", "fch": "eth_getFilterChanges", "unsub": "eth_unsubscribe", "unknown": "eth_somethingElse", "nothing": "", "upper": "ETH_GETBALANCE", "prefix": "eth_getBal", "longer": "eth_getBalance2", "admin": "admin_peers"}
@functools.lru_cache(None)
def honest(m):
    """(message, method, arguments, accepts(result))"""
    if m in ("bal", "nonce", "code", "storage", "proof"):
        s = dict(method=m, acct="A", keys={"storage": "k1", "proof": "l12"}.get(m, "-"), state="cur", addr="ok", acc="ok", sto="ok", blk="ok", mp="ok", hdr="ok", breq="num", argn="lower", data="ok")
        req, me, args = acct.build(s); return req, me, args, lambda r: acct.same(s, r, acct.truth(s, "cur"))
    if m in ("blknum", "blkhash", "bn"):
        s = dict(method={"blknum": "num", "blkhash": "hash"}.get(m, m), chain=CHN, shape="six", state="cur", full="true", breq="right", pf="ok", mp="ok", hdr="ok", un="ok", data="ok", argn="lower")
        req, me, args = blkj.build(s); return req, me, args, lambda r: not diff(r, blkj.truth(s, "cur"))
    if m in ("txhash", "txbh", "txbn", "receipt"):
        s = dict(method={"txhash": "hash", "txbh": "bh", "txbn": "bn"}.get(m, m), chain=CHN, shape="all", at=3, state="cur", idx="ok", tx="ok", bh="ok", bn="ok", bf="ok", rp="ok", mp="ok", hdr="ok", data="ok", dat="ok", req="ok")
        req, me, args = txj.build(s); return req, me, args, lambda r: not diff(r, txj.truth(s["method"], CHN, "all", 3))
    if m in ("logs", "verlogs"):
        s = dict(method={"logs": "get", "verlogs": "ver"}[m], filter="t0", state="oth", lg="ok", pb="ok", tx="ok", rp="ok", bh="ok", bn="ok", mp="ok", hdr="ok", data="ok")
        req, me, args, js = logj.build(s); return req, me, args, lambda r: isinstance(r, list) and all(any(logj.norm(l) == {k: v for k, v in g.items() if k != "logIndex"} for g in logj.genuine(["cur", "oth"])) for l in r)
    if m in ("call", "sim"):    # no interpreter in this build: only used as a proof for other methods
        w = acct.state("cur"); b = acct.blk("cur"); a = acct.ADDR_["A"]
        pr = {"accounts": [{"accountProof": w["trie"].proof(keccak(a)), "address": a, "code": (1, acct.code("A", "cur")), "storageProof": []}], "state_proof": {"block": (2, b.pl["blockNumber"]), "proof": b.mp([802, 806]), "header": b.header, "header_proof": b.sigproof(acct.com(acct.PER))}}
        return request(proof=(P_CALL, pr), data=(2, b"\0" * 32)), "eth_call", json.dumps([{"to": hx_(a), "data": "0x"}, hex(b.pl["blockNumber"])]), None
    loc = {"chainId": ("eth_chainId", "[]"), "accounts": ("eth_accounts", "[]"), "proto": ("eth_protocolVersion", "[]"), "client": ("web3_clientVersion", "[]"), "sha3": ("web3_sha3", '["0x68656c6c6f20776f726c64"]'), "net": ("net_version", "[]"), "decode": ("colibri_decodeTransaction", json.dumps([hx_(RAW())]))}
    if m in loc: return (b"",) + loc[m] + (None,)
    return b"", NAMES[m], "[]", None
def local_ok(m, r, c):
    if m == "chainId": return isinstance(r, str) and r.startswith("0x") and int(r, 16) == c.id
    if m == "accounts": return r == []
    if m == "proto": return isinstance(r, str) and r == "0x41"
    if m == "client": return isinstance(r, str) and r.startswith("C4/")
    if m == "sha3": return r == hx_(keccak(b"hello world"))
    if m == "net": return r == str(c.id)
    b = block("main", "electra", "six", "cur"); t = ref_tx(RAW(), 0, b.pl)
    return not [d for d in diff(r, t) if d[0] not in (".blockHash", ".blockNumber", ".transactionIndex", ".gasPrice")]
def parts(req):
    o = [int.from_bytes(req[i:i + 4], "little") for i in (4, 8, 12)]
    return req[:4], req[o[0]:o[1]], req[o[1]:o[2]], req[o[2]:]
DATA = {"d_hash": (1, rnd("d")), "d_bytes": (2, b"\x12\x34"), "d_u256": (3, 10**20), "d_sim": (9, b"")}
def job(su, x):
    s = x["s"]; c = CH[s["chain"]]; req0, m, args, good = honest(s["m"])
    data, proof, ver, sync = b"\0", b"\0", b"\0\0\1\0", b"\0"
    if s["data"] in DATA: data = parts(request(data=DATA[s["data"]]))[1] if s["data"] != "d_sim" else b"\x09"
    elif s["data"] != "none": data = parts(honest(s["data"])[0])[1]
    if s["proof"] == "sync": proof = b"\x06" + bytes(512 * 48 * 2 + 64 + 96 + 24 + 4)
    elif s["proof"] == "bad": proof = b"\x0e"
    elif s["proof"] != "none": proof = parts(honest(s["proof"])[0])[2]
    if s["msg"] == "ctype": ver = b"\5\0\1\0"
    elif s["msg"] == "version": ver = b"\0\1\7\3"
    elif s["msg"] == "sync": sync = b"\x01" + b"\x08\0\0\0\x09\0\0\0\0" + b"\x04\0\0\0\0"
    o = 16; req = ver + b"".join(x.to_bytes(4, "little") for x in (o, o + len(data), o + len(data) + len(proof))) + data + proof + sync
    if s["msg"] == "empty": req = b""
    su.push()
    try:
        for ch in {MAINNET.id: MAINNET, c.id: c}.values():
            if s["com"] == "not": store_periods(su, ch, [(p, committee("other/%d" % p)) for p in (1464, 1465, acct.PER - 1, acct.PER)])
            else: store_periods(su, ch, [(p, com("main", p)) for p in sorted({MAINNET.period(SLOT["main", "electra"]) + i for i in (-1, 0)})] + [(p, acct.com(p)) for p in (acct.PER - 1, acct.PER)])
        st, res, ok, log = su.verify(req, m, args, c.id)
        if st not in ("success", "error"): return "verification ended with %s" % st
        if not (st == "success" and ok): return "%s %s is rejected: %s" % (m, args[:100], res) if x["ok"] == "yes" else None
        if x["ok"] == "no": return "%s %s is answered with %s although the message does not prove it" % (m, args[:200], str(res)[:200])
        if good and not good(res): return "%s %s is answered with %s" % (m, args[:200], str(res)[:300])
        if not good and not local_ok(s["m"], res, c): return "%s %s is answered with %s" % (m, args[:200], str(res)[:300])
    finally: su.pop()
