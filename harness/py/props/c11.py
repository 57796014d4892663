"""Tries built by any history of insertions have the canonical root, and every proof created from them is valid and true."""
import functools, tlc, prod, trie
from c10 import K, Q, S, T, nib
def go(ck, name, keys, qs, vals, puts, limit, sim=None):
    c = dict(Keys=S(keys), Vals=vals, Queries=S(qs), MaxKeys=0, MaxPuts=puts, Devs=set())
    if sim: r = tlc.must("Trie", c, ["INIT InitB", "NEXT NextB", "INVARIANT InvB"], timeout=700, heap="8g", simulate=sim, depth=puts + 1, seed=ck.seed)
    else: r = tlc.must("Trie", c, ["INIT InitB", "NEXT NextB", "INVARIANT InvB"], timeout=700, heap="8g", workers=4)
    ck.spec(name, r)
    out = r["out"]
    if sim: out = [x for x in out if len(x["h"]) >= puts - 2]
    prod.replay(ck, name, out, functools.partial(trie.jobB, queries=qs), limit=limit, chunk=16, strat=lambda x: (len(x["h"]), x["root"]["t"]))
def run(ck):
    q = not ck.thorough
    go(ck, "Trie/puts", K[:6], Q[:9], {"s", "b"}, 3 if q else 4, 8000 if q else None)
    go(ck, "Trie/sizes", K[:4], Q[:6], {"n26", "n27", "n28", "n29", "n30", "n31"}, 2 if q else 3, 3000 if q else None)
    idx = [nib(0x80)] + [nib(i) for i in (1, 2, 0x10, 0x11, 0x7f)] + [nib(0x81, i) for i in (0x80, 0x81, 0x8f, 0x90)] + [nib(0x82, 1, i) for i in (0, 1)]
    go(ck, "Trie/index", idx, idx + [nib(0x81, 0x82), nib(0x20), nib(0x82, 1)], {"s", "m", "b"}, 10 if q else 12, 4000 if q else 40000, sim=400 if q else 4000)
    long = [k + T for k in K]
    go(ck, "Trie/longputs", long, [k + T for k in Q[:9]], {"s", "l"}, 7, 2000 if q else 20000, sim=200 if q else 2000)
