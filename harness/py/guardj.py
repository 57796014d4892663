"""Transactions asked for and signed in the scenarios of TxGuard.tla."""
import asyncio, json
import tsj, sut
from blkw import *
TO, OTHER = bytes.fromhex("00b04b5e5f09c7a2f51eAbCdEf0123456789aBcD".lower()), rnd("thief")[:20]
def checksum(a): h = keccak(a.hex().encode()).hex(); return "0x" + "".join(c.upper() if int(h[i], 16) > 7 else c for i, c in enumerate(a.hex()))
NONCE = lambda s: 0 if s["nonce"] == "zero" else 19
ADDR = lambda sk: keccak(secp_pub(sk))[12:]
VAL = {"some": 0x16345785d8a0010, "none": 0, "zero": 0}
DATA = {"none": b"", "empty": b"", "some": bytes.fromhex("a9059cbb") + TO.rjust(32, b"\0") + (7).to_bytes(32, "big"), "lead": bytes.fromhex("0000ab12")}
def num(v, form):
    h = "%x" % v
    return {"hex": "0x" + h, "lead0": "0x00" + h, "upper": "0x" + h.upper(), "num": v if v < 1 << 53 else "0x" + h, "dec": str(v), "big": {"$big": str(v)}}[form]
def asked(s):
    a = {}
    if s["to"] != "none": a["to"] = {"lower": "0x" + TO.hex(), "check": checksum(TO), "upper": "0x" + TO.hex().upper()}[s["tform"]]
    elif s["tform"] == "check": a["to"] = None
    if s["value"] != "none": a["value"] = num(VAL[s["value"]], s["vform"])
    if s["data"] != "none":
        d = hx_(DATA[s["data"]]); d = "0x" + d[2:].upper() if s["tform"] == "upper" else d
        for k in ("data", "input") if s["dname"] == "both" else (s["dname"],): a[k] = d
    if s["from"] == "yes": a["from"] = checksum(ADDR(SK_[0])) if s["tform"] == "check" else hx_(ADDR(SK_[0]))
    f = s["vform"] if s["vform"] in ("lead0", "num", "upper") else "hex"
    if s["style"] != "open":
        a.update(gas=num(100000, f), nonce=num(NONCE(s), f)); a.update(dict(gasPrice=num(9 * 10**9, f)) if s["style"] == "leg" else dict(maxFeePerGas=num(30 * 10**9, f), maxPriorityFeePerGas=num(10**9, f)))
    if s["chain"] == "yes": a["chainId"] = "0x1"
    return a
def signed(s):
    v, d = VAL[s["value"]], DATA[s["data"]]
    v = {"same": v, "other": v + 10**18, "zero": 0, "shift": v * 16, "small": v + 1}[s["sval"]]
    d = {"same": d, "other": bytes.fromhex("095ea7b3") + OTHER.rjust(32, b"\0") + b"\xff" * 32, "empty": b"", "trim": d.lstrip(b"\0"), "zero": b"\0" + d, "tail": d + b"\x01", "last": d[:-1] + bytes([d[-1] ^ 1]) if d else b"\1"}[s["sdata"]]
    to = b"" if s["to"] == "none" else TO
    to = {"same": to, "other": OTHER, "none": b"", "near": TO[:-1] + bytes([TO[-1] ^ 0x10]), "zero": bytes(20)}[s["sto"]]
    k = dict(chain={"same": 1, "other": 11155111, "none": 1, "big": (1 << 32) + 1, "zero": 0}[s["schain"]], to=to, value=v, data=d, gas={"same": 100000, "other": 9000000}[s["sgas"]], nonce={"same": NONCE(s), "other": 20}[s["snonce"]])
    bump = {"same": 0, "other": 77 * 10**9, "prio": 0}[s["sfee"]]
    k.update(gas_price=9 * 10**9 + bump, max_fee=30 * 10**9 + bump, prio=10**9 + (9 * 10**9 if s["sfee"] == "prio" else 0))
    ty = 0 if s["style"] == "leg" else 2
    if s["skind"] == "swap": ty = 2 - ty
    if s["schain"] == "none": ty = 0; k["unprotected"] = True
    if s["sextra"] == "access": ty = max(ty, 1); k["access"] = ((TO, (bytes(32),)),)
    if s["sextra"] == "auth" : ty = 4; k["auths"] = ((1, OTHER, 20, 0, 7, 9),)
    if s["sextra"] == "blob": ty = 3; k["blobs"] = (b"\x01" + rnd("b1")[1:],); k["max_blob"] = 10**9
    return make_tx(ty, SK_[1] if s["sfrom"] == "other" else SK_[0], **k)
def job(su, x):
    s = x["s"]; raw = signed(s); r = hx_(raw)
    r = {"ok": r, "null": None, "empty": "0x", "cut": r[:-2], "junk": "0x02c0", "text": "rejected", "obj": {"raw": r}, "pre": r[2:], "more": r + "00"}[s["raw"]]
    h = hx_(keccak(raw)); q = dict(chainId=1, prov=[], rpc=["http://a.invalid", "http://b.invalid"], bea=[], chk=[], cp="0x" + "11" * 32, strategy=s["strat"], conf=s["conf"], verifyTransactions=True, canned=h, calls=[dict(api=s["api"], method="eth_sendTransaction", params=[asked(s)])])
    if s["wallet"] != "none": q["fallback"] = {"eth_signTransaction": r, "eth_sendTransaction": h}
    su.push()
    try: o = asyncio.run(tsj.node().run(su, q))
    except sut.SutCrash: tsj.drop(); raise
    finally: su.pop()
    if o is None or "fatal" in o: tsj.drop(); return "%s does not end: %s" % (s, o)
    what = "asked %s, signed as %s" % (asked(s), {k: s[k] for k in s if k.startswith("s") and s[k] not in ("same", "none") or k in ("raw", "api", "strat", "conf")})
    sent = [b for b in o["sent"] if b.get("method") == "eth_sendRawTransaction"]; other = [b for b in o["sent"] if b.get("method") != "eth_sendRawTransaction"]
    fb = [e["fallback"] for e in o["events"] if "fallback" in e]; c = o["calls"][0]
    if other: return "%s: the node is asked for %s" % (what, other[0].get("method"))
    if [f for f in fb if f != "eth_signTransaction"]: return "%s: the wallet is asked for %s" % (what, fb)
    if sent and x["ok"] == "no": return "%s: sent" % what
    if len(sent) > 1 or sent and sent[0]["params"] != [r]: return "%s: something else is sent" % what
    if c["st"] == "ok" and (not sent or c.get("res") != h): return "%s: answered with %s" % (what, c.get("res"))
    if c["st"] == "err" and sent: return "%s: sent, but reported as failed: %s" % (what, c["res"])
    if c["st"] == "err" and x["ok"] == "yes": return "%s: refused: %s" % (what, c["res"])
