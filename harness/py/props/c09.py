"""SSZ data is read exactly as specified, and malformed data never leaves its buffer."""
import prod, sszj, tlc
def run(ck):
    for k, ab, n, types in [(1, {0, 1, 3, 4, 5, 8, 12, 128, 255}, 4, range(len(sszj.TYPES)))] + ([(2, {0, 4, 8, 255}, 3, range(len(sszj.TYPES)))] if ck.thorough else [(2, {0, 4, 255}, 3, [1, 2, 3, 5, 6, 7, 20])]):
        use = set(types); vals = [sszj.values(t, ck.seed if k == 2 else 1, n) if i in use and not (k == 2 and t["k"] in ("bl", "bv") and t["n"] > 20) else [] for i, t in enumerate(sszj.TYPES)]
        r = tlc.must("Ssz", dict(Types=sszj.TYPES, Vals=vals, Alphabet=ab, K=k), ["INIT Init", "NEXT Next", "INVARIANT Inv"], timeout=600, heap="8g", workers=8)
        ck.spec("Ssz/%d" % k, r)
        out = sorted(r["out"], key=lambda x: (x["t"], x["b"]))
        full = len(out)
        lim = 60000 if not ck.thorough else 600000
        if len(out) > lim:
            good = [x for x in out if x["ok"]]; bad = [x for x in out if not x["ok"]]; ck.rnd.shuffle(bad); ck.rnd.shuffle(good); out = good[:lim // 2]; out += bad[:lim - len(out)]
        ch = [{"l": out[i:i + 60]} for i in range(0, len(out), 60)]
        c = ck.replayed; prod.replay(ck, "Ssz/%d" % k, ch, sszj.job, chunk=2); ck.replayed = c + len(out)
        ck.notes["scenarios"]["Ssz/%d" % k] = {"enumerated": full, "replayed": len(out), "valid": sum(x["ok"] for x in out)}
