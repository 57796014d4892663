"""The C interface of the bindings: every history of calls, and every form of argument."""
import mbt, prod, bindj
def run(ck):
    q = not ck.thorough
    D = dict(args=set(bindj.ARGS), cp={"none", "null", "ok", "short", "odd", "long", "nohex", "late", "noprefix", "pre66", "x", "word", "zero"}, client={"have", "none"}, chain={"odd"})
    sc = prod.scenarios(ck, "BindArgs", "BindArgs", dict(Methods={"bal", "txhash", "blknum", "receipt", "logs", "chainId", "sha3"}, D=D, K=2 if q else 4))
    prod.replay(ck, "BindArgs", sc, bindj.args, limit=4000 if q else 20000, chunk=16)
    B = dict(Ctx={1, 2}, Kinds={"pl", "vb"}, Parts={"all", "first"}, MaxLen=6 if q else 7)
    for name, c, sim in (("small", B, None), ("long", dict(B, Ctx={1, 2, 3}, Kinds=set(bindj.KIND), Parts={"all", "rev", "first", "last"}, MaxLen=24), 2000 if q else 20000)):
        h = mbt.gen(ck, "Binding/" + name, "Binding", c, simulate=sim, depth=c["MaxLen"] + 1 if sim else None)
        lim = 2500 if q else 40000
        if len(h) > lim: ck.rnd.shuffle(h); h = h[:lim]
        mbt.validate(ck, "Binding/" + name, "Binding", c, mbt.run(ck, name, h, bindj.hist))
