"""Replays Ssz.tla: every byte string is given to the validator, the accessors, the hasher and the JSON converter."""
import hashlib, json, random
U = lambda n: {"k": "u", "n": n}
BOOL, NONE = {"k": "bool"}, {"k": "none"}
def V(n, t): return {"k": "vec", "n": n, "t": t}
def L(n, t): return {"k": "list", "n": n, "t": t}
def C(*f): return {"k": "con", "f": list(f)}
def UN(*f): return {"k": "uni", "f": list(f)}
def BV(n): return {"k": "bv", "n": n}
def BL(n): return {"k": "bl", "n": n}
BY = lambda n: L(n, U(1))
TYPES = [C(U(1), U(8)), C(U(1), BY(4)), L(3, BY(3)), C(L(2, U(2)), U(1), BY(3)), L(3, C(U(1), BY(2))), UN(NONE, U(2), BY(3), C(U(1), BOOL)), C(UN(NONE, U(1), BY(2)), U(2)), BL(9), BL(8), BL(300), BV(12), BV(8), BV(260),
         V(3, U(2)), V(2, V(32, U(1))), L(5, V(32, U(1))), BY(40), C(U(32), V(32, U(1)), L(2, U(32)), BOOL, U(4)), L(4, C(U(8), V(20, U(1)))), C(BL(9), U(1)), L(3, UN(U(1), BY(2))), C(C(U(1), BY(2)), L(2, C(BY(2), U(1)))), C(BOOL, L(2, BOOL)), L(2, U(16)), L(3, L(2, L(2, U(2)))), C(U(1), U(2), U(4), U(8), BY(3), BY(3), U(1)), L(9, U(8)), C(BV(12), U(1)), C(U(1), BV(8), BY(2)), C(BV(9), V(2, BOOL), V(2, C(BV(10), U(1)))), L(2, BV(12))]
def text(t):
    k = t["k"]
    if k in ("u", "bv", "bl"): return {"u": "u", "bv": "B", "bl": "L"}[k] + str(t["n"])
    if k in ("vec", "list"): return "%s%d(%s)" % (k[0], t["n"], text(t["t"]))
    if k in ("con", "uni"): return ("c" if k == "con" else "U") + "(" + ",".join(map(text, t["f"])) + ")"
    return k[0]
def gen(t, r, big):
    k = t["k"]
    if k == "u": return [r.choice([0, 1, 127, 255]) for _ in range(t["n"])]
    if k == "bool": return r.randrange(2)
    if k == "none": return []
    if k == "bv": return [r.randrange(2) for _ in range(t["n"])]
    if k == "bl": return [r.randrange(2) for _ in range(big if big <= t["n"] else t["n"])]
    if k == "vec": return [gen(t["t"], r, big) for _ in range(t["n"])]
    if k == "list": return [gen(t["t"], r, max(0, big - r.randrange(2))) for _ in range(min(big, t["n"]))]
    if k == "con": return [gen(f, r, big) for f in t["f"]]
    i = big % len(t["f"]); return [i, gen(t["f"][i], r, r.randrange(3))]
SIZES = {"bl": [0, 1, 7, 8, 9, 255, 256, 257, 300]}
def values(t, seed, n):
    out = []
    for i, s in enumerate(SIZES.get(t["k"], list(range(n)) + ([31, 32, 33, 40] if t == BY(40) else [4, 5] if t["k"] == "list" else []))):
        v = gen(t, random.Random("%s/%s/%s" % (seed, text(t), i)), s)
        if v not in out: out.append(v)
    return out
def tlaval(t, v):
    import tlc
    return tlc.tla(v)
def root(x):
    if isinstance(x, list): return bytes(x)
    return hashlib.sha256(root(x["l"]) + root(x["r"])).digest()
def view(t, v, b):
    """what the accessors should deliver for the value v"""
    k = t["k"]
    if k == "u": return bytes(v).hex()
    if k == "bool": return "%02x" % v
    if k == "none": return None
    if k == "bv": return bits(v).hex()
    if k == "bl": return {"n": len(v), "h": bits(v + [1]).hex()}
    if k in ("vec", "list"): return [view(t["t"], x, None) for x in v]
    if k == "con": return [view(f, x, None) for f, x in zip(t["f"], v)]
    return view(t["f"][v[0]], v[1], None)
def bits(v):
    b = bytearray((len(v) + 7) // 8)
    for i, x in enumerate(v): b[i // 8] |= x << (i % 8)
    return bytes(b)
def tojson(t, v):
    k = t["k"]
    if k == "u": return hex(int.from_bytes(bytes(v), "little"))
    if k == "bool": return bool(v)
    if k == "none": return None
    if k == "bv": return "0x" + bits(v).hex()
    if k == "bl": return "0x" + bits(v + [1]).hex()
    if k in ("vec", "list"): return "0x" + bytes(x[0] for x in v).hex() if t["t"] == U(1) else [tojson(t["t"], x) for x in v]
    if k == "con": return {"f%d" % i: tojson(f, x) for i, (f, x) in enumerate(zip(t["f"], v))}
    return {"selector": v[0], "value": tojson(t["f"][v[0]], v[1])}
def hasu(t): return t["k"] == "uni" or (t["k"] in ("vec", "list") and hasu(t["t"])) or (t["k"] == "con" and any(map(hasu, t["f"])))
def jsonable(t, v):
    """the JSON form carries the whole value: unions inside lists lose their selector"""
    return not hasu(t)
def job(su, xs):
    su.push()
    try:
        for x in xs["l"]:
            t = TYPES[x["t"] - 1]; b = bytes(x["b"]); tx = text(t)
            try: r = su.cmd("ssz", tx, b.hex() or "-")
            except Exception as e: return "type %s, bytes %s: %s" % (tx, b.hex(), str(e)[:700])
            if not x["ok"]: continue
            if not r["ok"]: return "type %s: the valid encoding %s of %s is rejected" % (tx, b.hex(), x["v"])
            w = view(t, x["v"], b)
            if r["view"] != w: return "type %s, bytes %s: read as %s instead of %s" % (tx, b.hex(), r["view"], w)
            if not hasu(t):
                h = root(x["r"]["l"]).hex()
                if r["root"] != h: return "type %s, bytes %s: hash tree root %s instead of %s" % (tx, b.hex(), r["root"], h)
            if jsonable(t, x["v"]):
                j = json.loads(r["json"]); e = tojson(t, x["v"])
                if j != e: return "type %s, bytes %s: JSON %s instead of %s" % (tx, b.hex(), j, e)
                q = su.cmd("sszjson", tx, json.dumps(e).encode().hex())
                if q["err"] or bytes.fromhex(q["b"]) != b: return "type %s: JSON %s is converted to %s instead of %s" % (tx, json.dumps(e), q["b"], b.hex())
    finally: su.pop()
