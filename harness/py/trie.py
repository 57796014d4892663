"""Encodes the terms of Trie.tla as real nodes, and replays its scenarios."""
import json
from crypto import keccak
from exec_layer import rlp, hp, EMPTY_ROOT
def seq(p): return [] if p == {} else list(p)      # ToJson writes the empty sequence as {} or []
EVIL = {}
def val(v):
    if v == "": return b""
    return {"s": b"\x07", "t": b"\x81", "m": b"m" * 20, "b": b"b" * 40, "l": b"l" * 299, **{"n%d" % i: b"n" * i for i in range(26, 32)}}[v] if v != "r" else keccak(evilnode([]))
def evilnode(p): return rlp([hp(seq(p), True), val("m")])
def node(n, size=None):
    """nested list of the node"""
    if n["t"] == "leaf": return [hp(seq(n["p"]), True), val(n["v"])]
    if n["t"] == "ext": return [hp(seq(n["p"]), False), ref(n["c"])]
    c = n["c"]; kids = [c[str(i)] for i in range(16)] if isinstance(c, dict) else c
    return [ref(k) for k in kids] + [val(n["v"])]
def ref(n):
    if n["t"] == "none": return b""
    e = node(n); r = rlp(e)
    return e if len(r) < 32 else keccak(r)
def enc(n): return rlp(node(n))
def root(n): return EMPTY_ROOT if n["t"] == "none" else keccak(enc(n))
def key(p): p = seq(p); assert len(p) % 2 == 0; return bytes(p[i] * 16 + p[i + 1] for i in range(0, len(p), 2))
def h(b): return b.hex() if b else "-"
def jobV(su, x):
    rt = root(x["root"]); l = [enc(n) for n in x["l"]] if x["l"] else []
    r = su.cmd("pverify", h(key(x["q"])), *[h(n) for n in l])
    truth = None if x["t"] == "absent" else val(x["t"])
    got = {0: "invalid", 1: "found", 2: "absent"}[r["r"]]
    if l and r["root"] != keccak(l[0]).hex(): return "the root of the proof is not the hash of its first node"
    if got == "invalid": return "an honest proof (%s) is rejected" % x["t"] if x["ok"] == "honest" and l else None
    if not l: return "an empty proof is accepted"
    if r["root"] != rt.hex(): return None    # proves something about another trie
    v = None if got == "absent" else bytes.fromhex(r["v"] or "")
    if v != truth: return "a proof for the root of the trie yields %r, but the trie has %r" % (v, truth)
    return None
def jobB(su, x, queries=None):
    qs = [key(q) for q in queries]
    kv = [(key(k), val(v)) for k, v in x["h"]]
    toks = [t for k, v in kv for t in (h(k), h(v))]
    m = dict(kv); rt = root(x["root"])
    for clone in (0, 1):
        r = su.cmd("ptrie", len(kv), clone, *toks, *[h(q) for q in qs])
        if r["root"] != rt.hex(): return "the root after these insertions%s is %s, not %s" % (" (clone)" if clone else "", r["root"], rt.hex())
        for q, p in zip(qs, r["p"]):
            v = su.cmd("pverify", h(q), *[n or "-" for n in p])
            if v["r"] == 0 or v["root"] != rt.hex(): return "the proof created for key %s is not valid" % q.hex()
            got = bytes.fromhex(v["v"]) if v["r"] == 1 else None
            if got != m.get(q): return "the proof created for key %s yields %r instead of %r" % (q.hex(), got, m.get(q))
    return None
