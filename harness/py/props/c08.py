"""Merkle multi proofs bind every proven value."""
import prod, merk, sszj, tlc
from sszj import *
OB = [C(U(8), U(8), V(32, U(1)), V(32, U(1)), V(32, U(1))), C(U(32), V(32, U(1)), L(2, U(32)), BOOL, U(4)), C(C(U(1), BY(40), U(2)), L(8, BY(70)), V(48, U(1)), U(8)), C(U(1), L(16, C(U(8), V(20, U(1)), U(8))), U(8), L(4, BY(64)), C(U(8), V(256, U(1)), BY(32)), BV(512), U(1), V(4, V(32, U(1))), L(8, V(32, U(1)))),
      C(V(96, U(1)), L(64, BY(1024)), U(1)), C(BL(2048), U(8), BV(64)), V(8, V(32, U(1)))]
def run(ck):
    q = not ck.thorough
    for name, d, sizes, k, orders in [("d2", 2, {1, 2, 3}, 2, "all"), ("d3", 3, {1, 2}, 1, "all"), ("d3s", 3, {3, 4}, 1, "sorted")] + ([] if q else [("d3x", 3, {1, 2, 3}, 2, "sorted"), ("d4", 4, {1, 2}, 1, "sorted")]):
        r = tlc.must("Merkle", dict(Dep=d, Sizes=sizes, K=k, Orders=orders), ["INIT Init", "NEXT Next", "INVARIANT Inv"], timeout=700, heap="8g", workers=8)
        ck.spec("Merkle/" + name, r); out = sorted(r["out"], key=str); full = len(out); lim = 30000 if q else 400000
        if full > lim:
            good = [x for x in out if x["ok"]]; bad = [x for x in out if not x["ok"]]; ck.rnd.shuffle(bad); out = good[:lim // 2] + bad[:lim // 2]
        c = ck.replayed; prod.replay(ck, "Merkle/" + name, [{"l": out[i:i + 200], "d": d} for i in range(0, len(out), 200)], merk.job, chunk=1); ck.replayed = c + len(out)
        ck.notes["scenarios"]["Merkle/" + name] = {"enumerated": full, "replayed": len(out)}
    jobs = [{"t": t, "seed": "%d/%d/%d" % (ck.seed, i, s), "size": s, "n": 25 if q else 200} for i, t in enumerate(OB) for s in (0, 1, 2, 3, 4, 7, 8)]
    prod.replay(ck, "created proofs", jobs, merk.create_job, chunk=1)
