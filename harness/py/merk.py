"""Replays Merkle.tla: terms become hashes."""
import hashlib, random
from ssz import *
import sszj
def h(x): return hashlib.sha256(h(x[0]) + h(x[1])).digest() if len(x) == 2 else hashlib.sha256(b"leaf%d" % x[0]).digest()
def job(su, xs):
    su.push()
    try:
        for x in xs["l"]:
            if not x["c"]: continue
            r = su.cmd("mverify", b"".join(h(w) for w in x["w"]).hex() or "-", b"".join(h(c["v"]) for c in x["c"]).hex(), *[c["g"] for c in x["c"]])
            got = bytes.fromhex(r["root"]) if r["r"] else None
            root = h(x["r"]) if x["fits"] else None
            if x["ok"] and got != root: return "an honest multi proof of %s is not accepted: %s" % ([c["g"] for c in x["c"]], r)
            if not x["ok"] and got is not None and got == h(ROOT(xs["d"])): return "claims %s with witnesses %s are accepted" % (x["c"], x["w"])
            if x["fits"] and got is not None and got != root: return "claims %s with witnesses %s yield another root than specified" % (x["c"], x["w"])
    finally: su.pop()
_r = {}
def ROOT(d):
    def node(g): return [g] if g >= 1 << d else [node(2 * g), node(2 * g + 1)]
    if d not in _r: _r[d] = node(1)
    return _r[d]
# ---- proofs created by the prover for typed objects
UNUSED = set()
def tree(t, v, g, out):
    """all nodes of the Merkle tree of a value: gindex -> hash (terms computed as in Ssz.tla)"""
    k = t["k"]
    def sub(leaves, d, g, rootg=None):
        if not leaves: UNUSED.add(g)          # positions beyond the value: nobody proves them
        if d == 0: return leaf(leaves[0] if leaves else None, g)
        half = 1 << (d - 1)
        out[g] = hashlib.sha256(sub(leaves[:half], d - 1, 2 * g) + sub(leaves[half:], d - 1, 2 * g + 1)).digest()
        return out[g]
    def leaf(x, g):
        if x is None: out[g] = bytes(32)
        elif isinstance(x, bytes): out[g] = x
        else: tree(x[0], x[1], g, out)
        return out[g]
    def depth(n):
        d = 0
        while 1 << d < n: d += 1
        return d
    def chunks(b): return [b[i:i + 32].ljust(32, b"\0") for i in range(0, len(b), 32)]
    basic = lambda t: t["k"] in ("u", "bool")
    if k == "u": out[g] = bytes(v).ljust(32, b"\0")
    elif k == "bool": out[g] = bytes([v]).ljust(32, b"\0")
    elif k == "con": sub([(f, x) for f, x in zip(t["f"], v)], depth(len(t["f"])), g)
    elif k in ("vec", "list"):
        lv = chunks(b"".join(bytes(x) if t["t"]["k"] == "u" else bytes([x]) for x in v)) if basic(t["t"]) else [(t["t"], x) for x in v]
        size = {"u": lambda: t["t"]["n"], "bool": lambda: 1}.get(t["t"]["k"], lambda: 0)()
        d = depth((t["n"] * size + 31) // 32 if basic(t["t"]) else t["n"])
        if k == "vec": sub(lv, d, g)
        else:
            sub(lv, d, 2 * g); out[2 * g + 1] = len(v).to_bytes(32, "little"); out[g] = hashlib.sha256(out[2 * g] + out[2 * g + 1]).digest()
    elif k == "bv": sub(chunks(sszj.bits(v)), depth((t["n"] + 255) // 256), g)
    elif k == "bl":
        sub(chunks(sszj.bits(v)), depth((t["n"] + 255) // 256), 2 * g); out[2 * g + 1] = len(v).to_bytes(32, "little"); out[g] = hashlib.sha256(out[2 * g] + out[2 * g + 1]).digest()
def enc(t, v):
    k = t["k"]
    if k == "u": return bytes(v)
    if k == "bool": return bytes([v])
    if k == "bv": return sszj.bits(v)
    if k == "bl": return sszj.bits(v + [1])
    ts = t["f"] if k == "con" else [t["t"]] * len(v)
    fx = lambda t: t["k"] in ("u", "bool", "bv") or (t["k"] == "vec" and fx(t["t"])) or (t["k"] == "con" and all(map(fx, t["f"])))
    ps = [enc(a, b) for a, b in zip(ts, v)]; head = sum(len(p) if fx(a) else 4 for a, p in zip(ts, ps)); a, b = b"", b""
    for q, p in zip(ts, ps):
        if fx(q): a += p
        else: a += (head + len(b)).to_bytes(4, "little"); b += p
    return a + b
def helpers(gs):
    path = set()
    for g in gs:
        while g > 1: path.add(g); g >>= 1
    return sorted({g ^ 1 for g in path} - path, reverse=True)
def create_job(su, x):
    t = x["t"]; v = sszj.gen(t, random.Random("mk%s" % x["seed"]), x["size"]); out = {}; UNUSED.clear(); tree(t, v, 1, out); b = enc(t, v); tx = sszj.text(t)
    rnd = random.Random("g%s" % x["seed"]); cand = sorted(g for g in out if g > 1 and g not in UNUSED)
    su.push()
    try:
        for _ in range(x["n"]):
            gs = []
            for g in rnd.sample(cand, min(len(cand), rnd.choice([1, 1, 2, 3, 5]))):
                if not any(g >> i in gs for i in range(64)) and not any(q >> i == g for q in gs for i in range(64)): gs.append(g)
            hl = helpers(gs)
            if any(g not in out for g in hl): continue
            r = su.cmd("mcreate", tx, b.hex(), *gs)
            if bytes.fromhex(r["root"]) != out[1]: return "type %s: hash tree root of %s differs" % (tx, b.hex())
            want = b"".join(out[g] for g in hl)
            if bytes.fromhex(r["p"]) != want: return "type %s, object %s: the proof of %s is %s instead of %s" % (tx, b.hex(), gs, r["p"][:200], want.hex()[:200])
            q = su.cmd("mverify", r["p"] or "-", b"".join(out[g] for g in gs).hex(), *gs)
            if not q["r"] or bytes.fromhex(q["root"]) != out[1]: return "type %s: the proof of %s is not accepted" % (tx, gs)
    finally: su.pop()
