"""With honest nodes every signed block can be proven, and the result is the truth."""
import prod, provej
M = {"bal", "nonce", "code", "storage", "proof", "blknum", "blkhash", "bn", "txhash", "txbh", "txbn", "receipt", "logs", "verlogs"}
D = dict(acct={"B", "E", "N", "Z", "X"}, keys={"k2", "k0", "l", "l1", "l10", "lmany"}, at={1, 2, 3, 5, 7, 10, 13, 15, 18, 21}, filt={"t0", "a0", "none", "wide", "wtop", "two"}, d={1, 2, 5, 12}, skip={1, 3}, uns={1, 2, 3, 5, 10, 11, 12}, hist={"yes"}, client={"old", "cp", "empty"}, sync={"yes"}, store={"yes"}, uv={"yes"}, body={"none", "full"}, enc={"json"}, warm={"near", "x256"}, order={"rev", "one", "last"})
CH = {"main/deneb", "main/electra", "main/fulu", "sepo/deneb", "sepo/electra", "gno/deneb", "gno/electra", "chi/electra"}
def st(x): s = x["s"]; return (s["m"], s["blk"], s["hist"], s["uns"] > 0, s["client"], x["ok"])
def world(x): return tuple(x["s"][k] for k in ("chain", "shape", "d", "skip", "uns", "hist", "body"))
def run(ck):
    q = not ck.thorough
    if q: ck.budget = max(ck.budget, 220)
    none = dict(FaultKinds={"none"}, Retry={"nores", "badargs"})
    sc = prod.scenarios(ck, "Prove/chains", "Prove", dict(Methods=M, Shapes={"six", "all", "two", "empty", "wd"}, Chains=CH, D=dict(body={"none", "full"}, enc={"json"}) if q else dict(order={"rev"}, body={"none", "full"}, enc={"json"}), K=1 if q else 2, **none))
    prod.replay(ck, "Prove/chains", sc, provej.job, history=world, chunk=6, limit=1200 if q else None, strat=lambda x: (x["s"]["chain"], x["s"]["m"], x["s"]["body"], x["s"]["enc"]))
    sc = prod.scenarios(ck, "Prove/many", "Prove", dict(Methods={"txhash", "txbh", "txbn", "receipt", "logs", "blkhash"}, Shapes={"many"}, Chains={"main/electra"} if q else CH, D=dict(at={257, 258}, order={"rev"}), K=1, **none))
    prod.replay(ck, "Prove/many", sc, provej.job, chunk=3)
    for k in (1, 2, 3) if q else (1, 2, 3, 4):
        sc = prod.scenarios(ck, "Prove/%d" % k, "Prove", dict(Methods=M if k < 4 else {"bal", "receipt", "blkhash", "logs"}, Shapes={"six"} if k > 1 else {"six", "all"}, Chains={"main/electra"}, D=D if k < 4 else {a: set(list(b)[:2]) if isinstance(b, set) and len(b) > 2 else b for a, b in D.items()}, K=k, **none))
        prod.replay(ck, "Prove/%d" % k, sc, provej.job, history=world, chunk=8, limit={1: None, 2: 2500, 3: 2500}[k] if q else {1: None, 2: None, 3: 40000, 4: 40000}[k], strat=st)
        # the default of the library: a prover without the cache for servers
        if k <= 2: prod.replay(ck, "Prove/%d/nocache" % k, sc, provej.job, chunk=8, limit={1: 1000, 2: 1000}[k] if q else {1: None, 2: 20000}[k], strat=st, kind="asan-nocache")
