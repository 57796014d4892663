"""The results on OP-Stack chains are those of the signed block."""
import functools, prod, acct, blkj, txj, logj, opw, c12, c13, c14, c15, c16
def only(D, *ks, **kw): d = {k: v for k, v in D.items() if k in ks}; d.update(kw); return d
def accounts(su, x): return acct.job(su, x, op=opw)
def logs(su, x):
    logj.OP = ["op", "x", "opsix"]
    try: return logj.job(su, x)
    finally: logj.OP = []
def run(ck):
    q = not ck.thorough
    DA = only(c12.D, "state", "addr", "acc", "sto", "data", "argn", hdr={"body"}); HO = {"body"}       # the block is one signed part, another block is "state"
    for k, br in ((1, {"latest", "num", "hash", "object", "safe", "finalized", "earliest", "pending"}), (2, {"latest", "num", "hash"})):
        sc = prod.scenarios(ck, "OpAccount/%d" % k, "Account", dict(Methods={"bal", "nonce", "code", "storage", "proof"}, Accts={"A", "B", "N"}, Breqs=br, KeyReqs={"-", "k1", "k0", "l", "l12"}, D=DA, K=k))
        prod.replay(ck, "OpAccount/%d" % k, sc, accounts, history=True, limit={1: 4000, 2: 4000}[k] if q else None, chunk=16, strat=lambda x: (x["s"]["method"], x["ok"], x["s"]["breq"], x["s"]["acc"], x["s"]["argn"]))
    DB = only(c13.D, "state", "data", "argn", hdr=HO, pf=c13.FIELDS - {"wddrop", "wdamount"})
    for k, br in ((1, {"right", "latest", "safe", "finalized", "earliest", "pending", "object", "int", "next", "none"}), (2, {"right", "latest", "none"})):
        sc = prod.scenarios(ck, "OpBlock/%d" % k, "Block", dict(Methods={"num", "hash", "bn"}, Breqs=br, Fulls={"true", "false"}, Chains={"op/x", "base/x"}, Shapes={"empty", "opall", "two"} if k == 1 else {"opall"}, D=DB, K=k))
        prod.replay(ck, "OpBlock/%d" % k, sc, blkj.job, history=True, limit={1: 2500, 2: 2500}[k] if q else None, chunk=8, strat=lambda x: (x["s"]["method"], x["ok"], x["s"]["breq"], x["s"]["pf"], x["s"]["argn"]))
    DT = only(c14.D, "state", "data", req=c14.D["req"] - {"tag"}, idx={"other", "past", "wrap", "huge"}, hdr=HO)
    DR = only(c15.D, "state", "data", "req", "rp", idx={"other", "past", "wrap", "huge"}, hdr=HO, dat=c15.D["dat"] - {"gasUsed", "effectiveGasPrice", "logindex"})
    for n, M, D in (("OpTx", {"hash", "bh", "bn"}, DT), ("OpReceipt", {"receipt"}, DR)):
        for k in (1, 2):
            sc = prod.scenarios(ck, "%s/%d" % (n, k), "Tx", dict(Methods=M, Shapes={"opall", "two"}, Ats=set(range(16)) if k == 1 or not q else {1, 7}, Chains={"op/x", "base/x"} if k == 1 else {"op/x"}, D=D, K=k))
            prod.replay(ck, "%s/%d" % (n, k), sc, txj.job, history=True, limit={1: 3000, 2: 2000}[k] if q else None, chunk=8, strat=lambda x: (x["s"]["method"], x["ok"], x["s"]["at"], x["s"]["dat"], x["s"]["req"]))
    DL = only(c16.D, "state", "pos", "pb", "rp", "data", hdr=HO, lg=c16.D["lg"] - {"index"})
    for k in (1, 2):
        sc = prod.scenarios(ck, "OpLogs/%d" % k, "Logs", dict(Methods={"get", "ver"}, Ats={"last", "first", "firsttx"}, Filters=c16.F, D=DL, K=k))
        prod.replay(ck, "OpLogs/%d" % k, sc, logs, history=True, limit={1: None, 2: 3000}[k] if q else None, chunk=8, strat=lambda x: (x["s"]["method"], x["s"]["lg"], x["s"]["pb"], x["ok"], x["s"]["at"], x["s"]["rp"]))
