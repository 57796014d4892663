"""On OP-Stack chains everything is derived from a payload signed by the chain's sequencer."""
import prod, opj, sut
D = dict(sig={"chain", "evil", "zero", "r0", "flip", "parity", "v", "high", "v27"}, dom={"chain", "zero", "nonzero", "none"}, pay={"root", "state", "last", "trunc", "ext", "rootonly"},
         frame={"raw", "rawas", "nosize", "huge", "more", "less", "zero", "trail", "cut", "garbage", "empty", "magic"}, block={"cross", "evil"}, ptype={"other", "none"}, ver={"eth", "zero"})
M = {"bal", "nonce", "code", "storage", "proof", "num", "hash", "full", "bn", "txhash", "txbh", "txbn", "receipt", "logs", "vlogs"}
def run(ck):
    su = sut.Sut()
    for b in opj.table(su): ck.violation("OpSeq/table: " + b, {"what": b})
    su.close(); ck.replayed += len(opj.TABLE)
    q = not ck.thorough
    for k in (1, 2):
        sc = prod.scenarios(ck, "OpSeq/%d" % k, "OpSeq", dict(Methods=M, Chains={"op", "base"}, D=D, K=k))
        prod.replay(ck, "OpSeq/%d" % k, sc, opj.job, history=True, limit=(None if k == 1 else 8000) if q else None, chunk=8, strat=lambda x: (x["s"]["method"], x["ok"], x["s"]["sig"], x["s"]["dom"], x["s"]["block"]))
