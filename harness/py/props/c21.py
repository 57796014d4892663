"""The cache shared by the requests of a prover: lifetime of values, validity of lookups, no leak."""
import mbt, cachej, tlc
def run(ck):
    q = not ck.thorough
    B = dict(Ctx={1, 2, 3}, Keys={"a"}, Sizes={1}, Durs={100}, Times={120}, MaxLen=7 if q else 8, MaxMB=104)
    for name, c, sim in (("small", B, None), ("long", dict(B, Keys={"a", "b"}, Durs={0, 100, 300}, Times={60, 120}, MaxLen=18), 3000 if q else 30000),
                         ("big", dict(B, Keys={"a", "b", "c"}, Sizes={60, 30}, Times={60}, MaxLen=20), 3000 if q else 30000)):
        h = mbt.gen(ck, "ProverCache/" + name, "ProverCache", c, simulate=sim, depth=c["MaxLen"] + 1 if sim else None)
        lim = 10000 if q else 200000
        if len(h) > lim: ck.rnd.shuffle(h); h = h[:lim]
        mbt.validate(ck, "ProverCache/" + name, "ProverCache", c, mbt.run(ck, name, h, cachej.pcache))
