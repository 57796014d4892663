"""OP-Stack chains: what the prover delivers is what the verifier accepts."""
import prod, opprovej
RPC = {"rpc:eth_getProof", "rpc:eth_getCode", "rpc:eth_getTransactionByHash", "rpc:eth_getBlockReceipts", "rpc:eth_getLogs"}
FK = {"err", "badargs", "empty", "null", "rpcerr", "nores", "type", "obj", "arr", "json", "html", "trunc", "cut", "head", "zero", "ff", "vals", "short", "other", "tiny", "sig65"} | {"%s:%d" % (k, i) for k in ("drop", "nul", "num", "emp", "x", "max", "idx") for i in range(12)}
M = {"bal", "nonce", "code", "storage", "proof", "blknum", "blkhash", "bn", "txhash", "txbh", "txbn", "receipt", "logs", "verlogs"}
def run(ck):
    q = not ck.thorough
    D = dict(acct={"B", "N", "E", "Z"}, keys={"k2", "k0", "l", "l1", "l10", "lmany"}, at=set(range(1, 16)), filt={"t0", "a0", "none", "wide", "wtop", "two"}, d={1, 4}, fcl={"preconf"} | RPC, fk=FK, fper={"once"}, order={"rev", "one", "last"}, uv={"yes"})
    st = lambda x: (x["s"]["m"], x["s"]["fcl"], x["s"]["fk"].split(":")[0], x["ok"])
    for k, sh, c in ((1, {"opall", "opsix", "empty", "two", "many"}, {"op/x", "base/x"}), (2, {"opsix"}, {"op/x"}), (3, {"opsix"}, {"op/x"})):
        d = D if k < 3 else dict(D, fk={"err", "rpcerr", "nores", "badargs", "null", "empty", "html"}, at={1}, d={1}, acct=set("B"), keys={"k0", "l"}, filt={"t0"})
        sc = prod.scenarios(ck, "OpProve/%d" % k, "OpProve", dict(Methods=M, Shapes=sh, Chains=c, D=d, K=k, Retry={"nores", "badargs"}))
        prod.replay(ck, "OpProve/%d" % k, sc, opprovej.job, history=lambda x: (x["s"]["chain"], x["s"]["shape"], x["s"]["d"]), limit={1: 3000, 2: 7000, 3: 3000}[k] if q else None, chunk=8, strat=st)
