"""Only the transaction the user asked for is broadcast."""
import prod, tlc, tsj, guardj
def run(ck):
    q = not ck.thorough
    tsj.bundle()
    sgn = dict(sto="same", sval="same", sdata="same", sgas="same", sfee="same", snonce="same", sfrom="same", schain="same", sextra="none", skind="same", raw="ok", wallet="yes")
    use = dict(tform="lower", vform="hex", dname="data", chain="no", nonce="some", conf="plain", api="request", strat="VerifyIfPossible")
    rec = lambda **k: "[" + ", ".join('%s |-> "%s"' % (a, b) for a, b in dict(sgn, **dict(use, **k)).items()) + "]"
    bases = [rec(to=t, value=v, data=d, style=st, **{"from": f}) for t, v, d in (("some", "some", "none"), ("some", "none", "some"), ("some", "some", "lead"), ("none", "none", "some"), ("some", "zero", "empty"), ("some", "none", "none")) for st, f in (("leg", "yes"), ("dyn", "no"), ("dyn", "yes"), ("open", "yes"), ("open", "no"))]
    D = dict(sto={"other", "none", "near", "zero"}, sval={"other", "zero", "shift", "small"}, sdata={"other", "empty", "trim", "zero", "tail", "last"}, sgas={"other"}, sfee={"other", "prio"}, snonce={"other"}, sfrom={"other"}, schain={"other", "none", "big", "zero"}, sextra={"access", "auth", "blob"}, skind={"swap"},
             raw={"null", "empty", "cut", "junk", "text", "obj", "pre", "more"}, wallet={"none"}, tform={"check", "upper"}, vform={"lead0", "upper", "num", "dec", "big"}, dname={"input", "both"}, chain={"yes"}, nonce={"zero"}, conf={"chain", "debug"}, api={"rpc"}, strat={"VerifiedOnly", "WarningWithFallback"})
    # how numbers are written, together with what is signed instead of them
    DF = dict(vform=D["vform"], nonce={"zero"}, snonce={"other"}, sval=D["sval"], sgas={"other"}, sfee=D["sfee"], schain={"other", "zero"}, chain={"yes"})
    sc = prod.scenarios(ck, "TxGuard/forms", "TxGuard", dict(Bases0=tlc.Raw("{" + ", ".join(bases) + "}"), D=DF, K=3))
    sc = [x for x in sc if x["s"]["vform"] != "hex" and (x["s"]["nonce"] != "some" or x["s"]["chain"] == "yes" or x["ok"] == "yes")]
    prod.replay(ck, "TxGuard/forms", sc, guardj.job, limit=1500 if q else None, chunk=64, strat=lambda x: tuple(x["s"][k] for k in ("vform", "nonce", "snonce", "sval", "chain", "schain")))
    sc = prod.scenarios(ck, "TxGuard", "TxGuard", dict(Bases0=tlc.Raw("{" + ", ".join(bases) + "}"), D=D, K=2 if q else 3))
    prod.replay(ck, "TxGuard", sc, guardj.job, limit=10000 if q else 80000, chunk=64)
