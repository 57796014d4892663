"""Runs histories of ProverCache.tla, TxCache.tla and LogsCache.tla with the real code."""
def ptok(s):
    o = s["o"]
    if o in "nf": return "%s.%d" % (o, s["c"])
    if o == "g": return "g.%d.%s" % (s["c"], s["k"])
    if o == "s": return "s.%d.%s.%d.%d.%d" % (s["c"], s["k"], s["v"], s["m"], s["d"])
    if o == "i": return "i." + s["k"]
    if o == "t": return "t.%d" % s["d"]
    return "c"
def pcache(su, h):
    alive = set()
    for s in h:
        if s["o"] == "n": alive.add(s["c"])
        if s["o"] == "f": alive.discard(s["c"])
    z = dict(c=0, k="", v=0, m=0, d=0)
    h = h + [dict(z, o="f", c=c) for c in sorted(alive)] + [dict(z, o="t", d=100000), dict(z, o="c")]
    su.push(); r = su.cmd("pcache", *map(ptok, h)); su.pop()
    return [dict(s, r=a[0], f=a[1], n=a[2], mb=a[3]) for s, a in zip(h, r)]
CAP = 16384
HOME = {1: 5, 2: 5, 3: 6, 4: 5, 5: 7, 6: 6, 7: CAP - 1, 8: CAP - 1, 9: 0, 10: CAP - 2, 11: 5 + CAP, 12: 1}
def txc(su, x):
    """replays one history; every lookup, and the size after each step, must be as specified; at the end all hashes are looked up"""
    h = x["h"]
    def tok(s):
        o = s["o"]
        if o == "s": return "s.%d.%d.%d.%d" % (s["a"], HOME[s["a"]], s["b"], s["c"])
        if o == "g": return "g.%d.%d" % (s["a"], HOME[s["a"]])
        if o in "rm": return "%s.%d" % (o, s["a"])
        return "x"
    su.push(); r = su.cmd("txc", *map(tok, h)); su.pop()
    for n, (s, a) in enumerate(zip(h, r)):
        if a != [s["f"], s["fb"], s["fi"], s["n"]]: return "step %d of %s: [found, block, index, size] is %s instead of %s" % (n + 1, " ".join(map(tok, h)), a, [s["f"], s["fb"], s["fi"], s["n"]])
# ---- logs cache: addresses, topics and contents of LogsCache.tla
import json, crypto as _k
AD = {i: b"\xa0" * 19 + bytes([i]) for i in range(1, 6)}
TP = {i: b"\xee" * 31 + bytes([i]) for i in range(1, 6)}
PAT = [[], [[(1, [1])]], [[], [(2, [1, 2]), (1, [])], [(1, [2, 1, 1])]], [[(1, [1, 2, 3, 1]), (3, [3]), (1, [1, 2])], [], [], [(2, [1, 3]), (2, [3, 3])]]]
FIL = [([], []), ([1], []), ([1, 2], [[1]]), ([], [[], [2, 3]]), ([2], [[1], [3]]), ([], [[], [], [], [1]]), ([4], []), ([1, 2, 3, 4, 5], [[1, 2, 3, 4]]), ([1, 2], [[1, 2, 3], [1, 2, 3]]), ([1], [], 1), ([], [[3]]), ([1], [[1], [2], [3], [1]])]
hx = lambda b: "0x" + b.hex()
def bloom(logs):
    v = 0
    for a, t in logs:
        for e in [AD[a]] + [TP[x] for x in t]:
            h = _k.keccak(e)
            for i in (0, 2, 4): v |= 1 << (int.from_bytes(h[i:i + 2], "big") & 2047)
    return v.to_bytes(256, "big")
def lid(b, c, t, k): return "0x%02x%02x%02x%02x" % (b, c, t, k)
def receipts(b, c):
    z, n, out = "0x" + "11" * 32, 0, []
    for t, tx in enumerate(PAT[c - 1]):
        pos = {"blockNumber": hex(b), "transactionHash": z, "transactionIndex": hex(t), "blockHash": z}; logs = []
        for k, (a, ts) in enumerate(tx):
            logs.append(dict(pos, address=hx(AD[a]), topics=[hx(TP[x]) for x in ts], data=lid(b, c, t, k), logIndex=hex(n), removed=False)); n += 1
        out.append(dict(pos, type="0x2", status="0x1", cumulativeGasUsed="0x5208", gasUsed="0x5208", effectiveGasPrice="0x1", logs=logs, logsBloom="0x" + bloom(tx).hex(), to=hx(AD[1]), contractAddress=None)); out[-1]["from"] = hx(AD[1])
    return json.dumps(out)
def lfilter(n, a, b, f):
    d, one = {"fromBlock": hex(a), "toBlock": hex(b)}, lambda l: l[0] if len(l) == 1 and n % 2 else l
    if len(f) > 2: d = {"blockHash": "0x" + "12" * 32}
    if f[0]: d["address"] = one([hx(AD[x]) for x in f[0]])
    if f[1]: d["topics"] = [one([hx(TP[x]) for x in p]) if p else (None if n % 3 else []) for p in f[1]]
    return json.dumps(d)
def lcache(su, x):
    h, toks = x["h"], []
    for n, s in enumerate(h):
        if s["o"] == "e": toks.append("e.%d" % s["a"])
        elif s["o"] == "d": toks.append("d")
        elif s["o"] == "h": toks.append("h.%d.%d" % (s["a"], s["b"]))
        elif s["o"] == "a": toks.append("a.%d.%s.%s" % (s["a"], (b"\xff" * 256 if n % 4 == 3 else bloom([l for t in PAT[s["c"] - 1] for l in t])).hex(), receipts(s["a"], s["c"]).encode().hex()))
        else: toks.append("q." + lfilter(n, s["a"], s["b"], FIL[s["c"] - 1]).encode().hex() + "".join(".%d.%s" % (s["from"] + i, receipts(s["from"] + i, c).encode().hex()) for i, c in enumerate(s["cont"])))
    su.push(); r = su.cmd("lcache", *toks); su.pop()
    say = lambda n: "after " + " ".join("%s(%s)" % (s["o"], ",".join(str(s[k]) for k in "abc")) for s in h[:n + 1])
    for n, (s, a) in enumerate(zip(h, r)):
        if s["o"] == "h" and a != s["s"]: return "%s: the range is reported as %s" % (say(n), "cached" if a else "not cached")
        if s["o"] != "q": continue
        if s["s"] == 2:
            if a["st"] == 0 and a["served"]: return say(n) + ": an invalid range is answered"
            continue
        if s["s"] == 0:
            if a["served"]: return "%s: answered from the cache: %s" % (say(n), str(a["logs"])[:200])
            continue
        if a["st"] != 0 or not a["served"] or a["foreign"]: return "%s: not served from the cache (%s)" % (say(n), {k: a[k] for k in ("st", "served", "foreign")})
        want = [lid(b, s["cont"][b - s["from"]], t, k) for b, t, k in s["r"]]
        got = [l["data"] for l in a["logs"]]
        if got != want: return "%s: logs %s instead of %s" % (say(n), got, want)
