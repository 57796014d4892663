"""eth_getLogs served from the logs cache equals the answer of a node."""
import prod, cachej, tlc
def go(ck, name, c, sim, limit):
    r = tlc.must("LogsCache", c, ["INIT Init", "NEXT Next", "INVARIANT Inv"], timeout=600, heap="8g", workers=1 if sim else 6, simulate=sim, depth=c["MaxLen"] + 1 if sim else None, seed=ck.seed)
    ck.spec("LogsCache/" + name, r); prod.replay(ck, "LogsCache/" + name, r["out"], cachej.lcache, limit=limit, chunk=8)
def run(ck):
    q = not ck.thorough
    B = dict(Blocks=set(range(1, 7)), Patterns={1, 2, 3, 4}, Filters=set(range(1, 13)), Limits={1, 2, 3, 5}, MaxLen=22, QueryEvery=2, Ring=False)
    go(ck, "filters", dict(B, Blocks={4, 5}, Limits={2}, MaxLen=4, QueryEvery=3), None, 3000 if q else 30000)
    go(ck, "long", B, 400 if q else 5000, 6000 if q else 60000)
    go(ck, "ring", dict(B, Patterns={2, 4}, Filters={1, 2, 8}, Limits={2, 3}, Blocks=set(range(0, 9)), MaxLen=40), 150 if q else 4000, 2500 if q else 50000)
    go(ck, "around", dict(B, Filters={1, 2, 4, 8}, Blocks=set(range(0, 9)) | {30}, MaxLen=48, Ring=True), 300 if q else 6000, 4000 if q else 50000)
