"""Whatever the nodes answer: the prover ends, does not crash, and never leads to a wrong result."""
import itertools, prod, provej, tlc
from c19 import M
CL = {"rpc:eth_getBlockByNumber", "rpc:eth_getBlockByHash", "rpc:eth_getTransactionByHash", "rpc:eth_getBlockReceipts", "rpc:eth_getLogs", "rpc:eth_getProof", "rpc:eth_getCode", "block", "parent", "header", "finality", "bootstrap", "updates", "summaries", "blocks"}
FK = set("err empty null rpcerr nores badargs type obj arr json html trunc cut head zero ff vals short other".split())
def st(x): s = x["s"]; return (s["m"], s["fcl"], s["fk"].split(":")[0])
def run(ck):
    q = not ck.thorough; R = {"nores", "badargs"}
    ms = {"bal": {"rpc:eth_getBlockByNumber", "rpc:eth_getProof"}, "code": {"rpc:eth_getCode"}, "storage": {"rpc:eth_getProof"}, "blkhash": {"rpc:eth_getBlockByHash"}, "blknum": {"rpc:eth_getBlockByNumber"}, "txhash": {"rpc:eth_getTransactionByHash"},
          "receipt": {"rpc:eth_getTransactionByHash", "rpc:eth_getBlockReceipts"}, "logs": {"rpc:eth_getLogs", "rpc:eth_getBlockReceipts"}, "verlogs": {"rpc:eth_getBlockReceipts"}}
    words = {"".join(w) for n in ((1, 2) if q else (1, 2, 3, 4)) for w in itertools.product("arfl", repeat=n)}
    r = tlc.must("Async", dict(N=3, Methods=ms, Words=words, RetryKinds=R if not q else {"nores"}, FatalKinds={"rpcerr"} if q else {"rpcerr", "html"}), ["SPECIFICATION Spec", "INVARIANT Inv", "PROPERTY Ends"], timeout=600, heap="4g", workers=6)
    ck.spec("Async", r)
    prod.replay(ck, "Async", r["out"], provej.async_job, chunk=10, limit=5000 if q else 60000, strat=lambda x: (x["s"]["m"], x["s"]["fcl"], str(x["s"]["b"])))
    sc = prod.scenarios(ck, "Prove/answers", "Prove", dict(Methods=M, Shapes={"six"}, Chains={"main/electra"}, D=dict(fcl=CL, fk=FK, fper={"once"}, uns={2}, hist={"yes"}, store={"yes"}, client={"old", "cp"}, sync={"yes"}), K=4, FaultKinds=FK, Retry=R))
    sc = [x for x in sc if x["s"]["fk"] != "none"]
    prod.replay(ck, "Prove/answers", sc, provej.job, chunk=10, limit=6000 if q else None, strat=st)
    FF = {"%s:%d" % (k, i) for k in provej.FIELD for i in range(0, 40, 1)}
    for sub in ([("num", {})] if q else [("num", {}), ("old", dict(client={"old"}, sync={"yes"})), ("hist", dict(hist={"yes"}, store={"yes"})), ("uns", dict(uns={2}))]):
        sc = prod.scenarios(ck, "Prove/fields/" + sub[0], "Prove", dict(Methods=M, Shapes={"six"}, Chains={"main/electra"}, D=dict(fcl=CL - {"block", "bootstrap", "updates", "blocks"}, fk=FF, **dict(dict(uns={2}, hist={"yes"}, store={"yes"}), **sub[1])), K=2 if q else 4, FaultKinds=FF, Retry=R))
        sc = [x for x in sc if x["s"]["fk"] != "none"]
        prod.replay(ck, "Prove/fields/" + sub[0], sc, provej.job, chunk=10, limit=9000 if q else 120000, strat=st)
    # a beacon node delivering JSON: every field of a block
    FJ = {"%s:%d" % (k, i) for k in provej.FIELD for i in range(0, 330, 1 if not q else 3)} | FK
    sc = prod.scenarios(ck, "Prove/json", "Prove", dict(Methods={"bal", "blkhash", "receipt"}, Shapes={"six"}, Chains={"main/electra", "gno/deneb"}, D=dict(fcl={"block"}, fk=FJ, enc={"json"}), K=3, FaultKinds=FJ, Retry=R))
    sc = [x for x in sc if x["s"]["fk"] != "none" and x["s"]["enc"] == "json" and x["s"]["blk"] in ("num", "latest")]
    prod.replay(ck, "Prove/json", sc, provej.job, chunk=10, limit=3000 if q else 40000, strat=st, kind="asan-nocache")
