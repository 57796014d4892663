"""The transaction cache is a bounded map with block-wise eviction; every operation ends."""
import prod, cachej, tlc
def go(ck, name, c, sim, limit):
    r = tlc.must("TxCache", c, ["INIT Init", "NEXT Next", "INVARIANT Inv"], timeout=600, heap="8g", workers=1 if sim else 6, simulate=sim, depth=c["MaxLen"] + 1 if sim else None, seed=ck.seed)
    ck.spec("TxCache/" + name, r); prod.replay(ck, "TxCache/" + name, r["out"], cachej.txc, limit=limit, chunk=16)
def bulk(su, x):
    su.push(); r = su.cmd("txc", *x["t"]); su.pop()
    if r[-1][3] > min(x["max"], cachej.CAP): return "%s: %d entries although the limit is %d" % (x["t"], r[-1][3], x["max"])
    if r[-1][0] != 0: return "%s: a transaction that was never stored is found" % x["t"]
def run(ck):
    q = not ck.thorough
    B = dict(Hashes=set(range(1, 13)), Blocks={1, 2, 3}, Idx={0, 1}, Maxes={3, 5}, Reserves={2}, Cap=cachej.CAP, WithReset=True)
    go(ck, "cluster", dict(B, Hashes={1, 2, 3}, Blocks={1, 2}, Idx={0}, Maxes={2}, MaxLen=5), None, 20000 if q else 100000)
    go(ck, "long", dict(B, MaxLen=30), 500 if q else 6000, 12000 if q else 100000)
    go(ck, "probe", dict(B, Maxes={2, 4}, Hashes={1, 2, 3, 4, 6, 11}, Reserves={1, 3}, WithReset=False, Blocks={1, 2, 3, 4, 5}, MaxLen=40), 500 if q else 6000, 12000 if q else 100000)
    prod.replay(ck, "TxCache/bulk", [{"t": ["m.%d" % m, "b.0.%d.100" % n, "g.99.77"], "max": m} for m in (10000, 16383, 16384, 16385, 20000, 1000000) for n in (16000, 16384, 16385, 17000, 40000)], bulk, chunk=1)
