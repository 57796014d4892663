"""Replays JsonText.tla and JsonValue.tla against the JSON functions."""
import sut
# ---- texts
TOK = [["{"], ["}"], ["["], ["]"], [","], [":"], ["_"], ["s", "a"], ["s", "b"], ["n", "1"], ["l", "null"], ["q"]]
STR = {"a": "a", "b": "b", "e": "", "br": "}]{[,:", "esc": '\\"}', "bs": "x\\\\"}
def tok(t):
    k = t[0]
    if k in "{}[],:": return k
    if k == "_": return " "
    if k == "q": return '"'
    if k == "s": return '"%s"' % STR[t[1]]
    return t[1]
def S(x): return {"t": "s", "x": x}
def NU(x): return {"t": "n", "x": x}
def LT(x): return {"t": "l", "x": x}
def A(*l): return {"t": "a", "l": list(l)}
def O(*m): return {"t": "o", "m": [list(x) for x in m]}
def trees():
    sc = [S("a"), S("br"), S("esc"), S("bs"), S("e"), NU("0"), NU("-12"), NU("18446744073709551615"), LT("true"), LT("false"), LT("null")]
    out = list(sc) + [A(), O(), A(A()), A(O()), O(("a", O())), O(("a", A()))]
    out += [A(x) for x in sc] + [O(("a", x), ("b", y)) for x in sc for y in sc[:6]] + [A(x, y, x) for x in sc[:6] for y in sc]
    out += [O(("br", x), ("a", NU("7"))) for x in sc] + [O(("a", x), ("a", NU("9"))) for x in sc[:5]] + [A(A(x, A(O(("esc", A(x)), ("b", x)))), O(("e", x))) for x in sc]
    out += [O(("a", O(("b", O(("a", A(A(), A(x), O())))))), ("b", x)) for x in sc]
    return out
def starts():
    """brackets that do not match, texts that end early inside of a value"""
    a, b, c, n = ["s", "a"], ["s", "b"], [","], ["n", "1"]
    ch = {"{": ["{"], "}": ["}"], "[": ["["], "]": ["]"], ",": c, ":": [":"], "a": a, "b": b, "1": n, " ": ["_"], "q": ["q"]}
    return [[ch[x] for x in t] for t in ("{a:[}],b:", "{a:[}],b", "{a:[}]", "[{]},", "[{]},1", "[{]} ", "{a:{b:[}}", "[[{]]},", "{a:1,b:[}],", "{a:1}b:", "[1}1]", "{a:[1}", "{a:{]}", "[{a:]}", "{ a :[ } ], b :", "[1,{]},a", "{a:1,q}", "{a:1,q:1}", "[1,q]")]
def leaf(t):
    """what the accessors deliver for a scalar"""
    k, x = t["t"], t["x"]
    raw = {"a": "a", "b": "b", "e": "", "br": "}]{[,:", "esc": '"}', "bs": "x\\"}[x] if k == "s" else x
    if k == "l": return {"t": "l" if x == "null" else "b", "s": x, "b": int(x == "true"), "z": int(x == "null")}
    r = {"t": k, "s": raw, "b": 0, "z": 0}
    if k == "n" and not x.startswith("-"): r["u"] = str(int(x))
    return r
def same(v, r):
    if v["t"] == "o":
        if r.get("t") != "o" or len(r["m"]) != len(v["m"]) or r["miss"] != -1: return False
        for i, (name, w) in enumerate(v["m"]):
            nm, e, g, pth = r["m"][i]
            if nm != STR[name] or not same(w, e): return False
            first = next(y for x, y in v["m"] if x == name)
            if not same(first, g): return False                       # json_get yields the first member of this name
            if not pth and not set(nm) & set(".["): return False
        return True
    if v["t"] == "a":
        return r.get("t") == "a" and r["n"] == len(v["l"]) == len(r["l"]) and r["miss"] == -1 and all(same(a, b) for a, b in zip(v["l"], r["l"]))
    w = leaf(v); return all(r.get(k) == x for k, x in w.items())
def outside(r):
    if isinstance(r, dict): return r.get("t") == "outside" or any(outside(x) for x in r.values())
    if isinstance(r, list): return any(outside(x) for x in r)
    return False
def job_text(su, j):
    l = j["l"]
    for x, r in zip(l, su.cmd("jview", *[sut.hx("".join(map(tok, x["x"]))) for x in l])):
        t = "".join(map(tok, x["x"]))
        if outside(r): return "a value of %r lies outside of the text" % t
        if x["ok"] and not same(x["v"], r): return "%r is read as %s" % (t, str(r)[:600])
# ---- values
CH = [["c", 97], ["c", 0xc3], ["c", 0xa4], ["c", 117], ["e", "n"], ["e", "b"], ["e", "f"], ["e", "r"], ["e", "t"], ["e", "quote"], ["e", "slash"], ["e", "back"], ["u", 0x41], ["u", 0x7f], ["u", 0x80], ["u", 0x7ff], ["u", 0x800], ["u", 0x20ac], ["u", 0xffff], ["u", 1]]
def ch(c): return bytes([c[1]]) if c[0] == "c" else b"\\" + {"quote": b'"', "slash": b"/", "back": b"\\"}.get(c[1], c[1].encode()) if c[0] == "e" else b"\\u%04x" % c[1]
def H(n, z=False, pre="0x", bad=0): return {"t": "hex", "pre": pre, "n": n, "z": z, "bad": bad}
def hexes():
    out = [H(n, z) for n in list(range(0, 20)) + [31, 32, 33, 38, 39, 40, 41, 42, 62, 63, 64, 65, 66, 130] for z in (False, True) if n or not z]
    out += [H(n, False, p) for n in (0, 1, 2, 3, 4, 8, 16, 40) for p in ("", "0y", "1x", "0X")] + [H(n, False, "0x", b) for n in (1, 2, 3, 4, 8, 9, 16) for b in {1, 2, n - 1, n} if 0 < b <= n]
    return out
SIZES = [1, 2, 3, 4, 8, 20, 31, 32, 33, 64]
def hexs(h):
    d = ("0" if h["z"] else "a") + "123456789abcdeF" * 12; d = d[:h["n"]]
    if h["bad"]: d = d[:h["bad"] - 1] + "g" + d[h["bad"]:]
    return h["pre"] + d
SCAL = [H(40), H(39), H(41), H(40, False, "0y"), H(40, False, "1x"), H(40, False, ""), H(64), H(63), H(65), H(66), H(64, True), H(0), H(1), H(1, True), H(2, True), H(3), H(40, False, "0x", 40), H(3, False, "0x", 1), H(8, False, "0x", 8)] + \
       [{"t": "str", "x": x} for x in ("", "0", "latest", "safe", "finalized", "earliest", "lates", "latestx", "123", "12a", "x")] + [{"t": "num", "x": x} for x in ("7", "1.5", "-1")] + [{"t": "lit", "x": x} for x in ("true", "false", "null")]
def jtxt(v):
    t = v["t"]
    if t == "hex": return '"%s"' % hexs(v)
    if t == "str": return '"%s"' % v["x"]
    if t in ("num", "lit"): return v["x"]
    if t == "a": return "[" + ",".join(map(jtxt, v["l"])) + "]"
    return "{" + ",".join('"%s":%s' % (k, jtxt(x)) for k, x in v["m"]) + "}"
def schema(s):
    k = s["s"]
    if k == "arr": return "[" + ",".join(map(schema, s["e"])) + "]"
    if k == "obj": return "{" + ",".join(f["n"] + ("?" if f["opt"] else "") + ":" + schema(f["s"]) for f in s["f"]) + "}"
    if k == "map": return "{*:" + schema(s["e"]) + "}"
    return k
def parse_schema(t):
    """text of a schema -> record"""
    p = 0
    def ty():
        nonlocal p
        if t[p] == "[":
            p += 1; e = [ty()]
            while t[p] == ",": p += 1; e.append(ty())
            p += 1; return {"s": "arr", "e": e}
        if t[p] == "{":
            p += 1
            if t[p] == "*": p += 2; e = ty(); p += 1; return {"s": "map", "e": e}
            f = []
            while True:
                q = p
                while t[p].isalnum() or t[p] == "_": p += 1
                n = t[q:p]; opt = t[p] == "?"; p += opt; p += 1; f.append({"n": n, "opt": opt, "s": ty()})
                if t[p] != ",": p += 1; return {"s": "obj", "f": f}
                p += 1
        q = p
        while p < len(t) and t[p].isalnum(): p += 1
        return {"s": t[q:p]}
    return ty()
SCHEMAS = ["address", "bytes32", "bytes", "hex32", "hexuint", "uint", "suint", "bool", "block", "[address,block]", "[address,bytes32,block]", "[address,[bytes32],block]", "[bytes]", "{*:bytes32}",
           "{to:address,data:bytes,gas?:hexuint,from?:address}", "{accountProof:[bytes],storageProof:[{key:hex32,value:hex32,proof:[bytes]}],nonce:hexuint}", "{*:{balance?:hexuint,nonce?:uint,storage?:{*:bytes32}}}", "[{address:address,topics:[bytes32],removed:bool}]", "{data:[{slot:suint,root:bytes32}],ok?:bool}"]
def job_val(su, j):
    l = j["l"]; k = l[0]["k"]
    if k == "str":
        for x, r in zip(l, su.cmd("jview", *[(b'"' + b"".join(map(ch, x["c"])) + b'"').hex() for x in l])):
            if r.get("t") != "s" or r["s"].encode("latin1") != bytes(x["r"]): return "the string %r is read as %r" % (b"".join(map(ch, x["c"])), r.get("s"))
    elif k == "hex":
        a = []
        for x in l: a += [x["z"], sut.hx('"%s"' % hexs(x["h"]))]
        for x, r in zip(l, su.cmd("jbytes", *a)):
            h, z = x["h"], x["z"]; t = hexs(h); n, b, u, g, sl = r
            if n > z: return "%s into %d bytes: %d bytes reported" % (t, z, n)
            if sl > 7: return "%s as string in a buffer of 8 bytes is not terminated" % t
            d = t[len(h["pre"]):]; full = bytes.fromhex(d if len(d) % 2 == 0 else "0" + d) if not h["bad"] and h["pre"] in ("0x", "") else b""
            if h["pre"] == "" and h["n"]: continue                    # without prefix both is fine
            if x["r"] < 0 and n != 0: return "%s into %d bytes: expected none, got %s" % (t, z, b)
            if x["r"] >= 0 and bytes.fromhex(b) != full: return "%s into %d bytes: expected %s, got %s" % (t, z, full.hex(), b)
            if bytes.fromhex(g) != full: return "%s: expected %s, got %s" % (t, full.hex(), g)
            if not h["bad"] and h["pre"] == "0x" and 0 < h["n"] <= 16 and int(u) != int(d, 16): return "%s as number is %s" % (t, u)
    else:
        a = []
        for x in l: a += [sut.hx(SCHEMAS[x["i"] - 1]), sut.hx(jtxt(x["v"]))]
        for x, (p, c) in zip(l, su.cmd("jval", *a)):
            if p != c: return "%s for %s: cached validation says %d, validation %d" % (SCHEMAS[x["i"] - 1], jtxt(x["v"])[:300], c, p)
            if x["r"] != "any" and p != (x["r"] == "yes"): return "%s for %s: expected %s, got %s" % (SCHEMAS[x["i"] - 1], jtxt(x["v"])[:300], x["r"], "yes" if p else "no")
