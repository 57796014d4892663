"""Replays Rlp.tla: byte strings are read by the real decoder, values written by the real encoder."""
ALPHA = [0, 1, 127, 128, 129, 130, 183, 184, 185, 191, 192, 193, 194, 247, 248, 249, 255]
I = lambda n, x: {"k": "item", "n": n, "x": x}
UI = lambda *b: {"k": "uint", "b": list(b)}
LI = lambda *l: {"k": "list", "l": list(l)}
def values():
    lens = [0, 1, 2, 54, 55, 56, 57, 255, 256, 257, 65535, 65536, 70000]
    v = [I(n, x) for n in lens for x in (0, 127, 128, 200)]
    v += [UI(*([0] * z + b)) for z in (0, 1, 7) for b in ([], [1], [127], [128], [255], [1, 0], [255] * 8, [128] + [0] * 7, [1] + [0] * 31)]
    v += [LI(), LI(LI()), LI(LI(), LI(LI()))]
    v += [LI(I(n, 200)) for n in lens] + [LI(I(1, 5), I(n, 7), UI(0, 0, 9)) for n in lens] + [LI(I(n, 3), LI(I(n, 4), I(0, 0))) for n in (0, 1, 25, 52, 53, 54, 55, 56, 253, 254, 65530, 65536)]
    return v
def bases():
    """beginnings with long lengths"""
    out = [[0xb8, 56] + [9] * 54, [0xf8, 56] + [9] * 55, [0xb9, 0, 2, 7], [0xbf, 255, 255, 255, 255, 255, 255, 255], [0xbf, 255, 255, 255, 255, 255, 255, 255, 240], [0xff, 255, 255, 255, 255, 255, 255, 255, 247], [0xbb, 255, 255, 255, 255], [0xba, 0, 0, 1],
           [0xf9, 0, 1], [0xb7] + [1] * 54, [0xf7] + [1] * 54, [0xb8, 0], [0xf8, 1], [0x82, 1, 2, 0xc2, 1], [0xc1, 5, 0x81], [0xff, 0, 0, 0, 0, 0, 0, 0, 1], [0xbf, 0, 0, 0, 0, 0, 0, 0, 2], [0xbf, 128, 0, 0, 0, 0, 0, 0, 1]]
    return out
def expand(e): return b"".join(bytes(s["h"]) + bytes([s["x"]]) * s["n"] for s in e)
def toks(v):
    if v["k"] == "item": return ["i" + (bytes([v["x"]]) * v["n"]).hex()]
    if v["k"] == "uint": return ["u" + bytes(v["b"]).hex()]
    return None
def enc_cmds(v, op="["):
    if v["k"] != "list": return toks(v)
    cl = {"[": "]", "(": ")"}[op]
    return [op] + [t for x in v["l"] for t in enc_cmds(x, op)] + [cl]
def job(su, j):
    if "v" in j:
        v, e = j["v"], expand(j["e"])
        for op in "[(":
            r = bytes.fromhex(su.cmd("rlpenc", *enc_cmds(v, op))["b"])
            if r != e: return "encoding of %s: expected %s.. (%d bytes), got %s.. (%d bytes)" % (str(v)[:200], e[:12].hex(), len(e), r[:12].hex(), len(r))
        if v["k"] == "uint" and len(v["b"]) <= 8:
            n = int.from_bytes(bytes(v["b"]), "big")
            if bytes.fromhex(su.cmd("rlpenc", "U%d" % n)["b"]) != e: return "encoding of the number %d" % n
            if su.cmd("rlp", e.hex())[0][1][3] != str(n): return "the number %d is read back as %s" % (n, su.cmd("rlp", e.hex())[0][1])
        if v["k"] != "list":
            r = su.cmd("rlp", e.hex() or "-")[0]
            if r[0] != 1 or r[1][:3] != [1, len(e) - clen(v), clen(v)]: return "%s is read back as %s" % (str(v)[:200], r[:2])
        return None
    for x, r in zip(j["l"], su.cmd("rlp", *[bytes(x["b"]).hex() or "-" for x in j["l"]])):
        b = bytes(x["b"])
        want = [len(x["l"]) if x["end"] else -1]
        for i in range(8):
            if i < len(x["l"]):
                it = x["l"][i]; c = b[it["p"] - 1:it["p"] - 1 + it["n"]]
                want.append([1 if it["k"] == "item" else 2, it["p"] - 1, it["n"], str(int.from_bytes(c, "big")) if it["k"] == "item" and len(c) <= 8 else "0"])
            else: want.append([-2 if x["end"] else -1])
        if r != want: return "reading %s: expected %s, got %s" % (b.hex(), want, r)
def clen(v):
    if v["k"] == "item": return v["n"]
    return len(bytes(v["b"]).lstrip(b"\0"))
