"""RLP is read and written as the yellow paper says, and never outside of its data."""
import prod, rlpj, tlc
def tset(l): return tlc.Raw("{" + ", ".join(tlc.tla(v) for v in l) + "}")
def run(ck):
    t = ck.thorough
    for name, ab, k, bases, vals in [("Rlp/all", rlpj.ALPHA, 5 if t else 4, [[]], []), ("Rlp/long", [0, 1, 128, 192, 255], 5 if t else 4, rlpj.bases(), rlpj.values())]:
        r = tlc.must("Rlp", dict(Alphabet=set(ab), N=k, Bases=tset(bases), Values=tset(vals)), ["INIT Init", "NEXT Next", "INVARIANT Inv"], timeout=600, heap="8g", workers=8)
        ck.spec(name, r)
        rd = sorted([x for x in r["out"] if "b" in x], key=lambda x: x["b"]); wr = [x for x in r["out"] if "v" in x]
        jobs = [{"l": rd[i:i + 60]} for i in range(0, len(rd), 60)] + wr
        c = ck.replayed; prod.replay(ck, name, jobs, rlpj.job, chunk=4); ck.replayed = c + len(rd) + len(wr)
        ck.notes["scenarios"][name] = {"enumerated": len(r["out"]), "replayed": len(rd) + len(wr)}
