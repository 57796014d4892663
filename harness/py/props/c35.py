"""What the prover delivers for a contract call is enough for the verifier, which executes it to the truth."""
import zlib, json
import prod, callpj, tlc
h = lambda o: zlib.crc32(json.dumps(o, sort_keys=True).encode())
P = {"trace", "traceask", "list", "listask", "geth", "gethask"}
RPC = {"trace": {"rpc:debug_traceCall", "rpc:eth_getProof"}, "list": {"rpc:eth_createAccessList", "rpc:eth_getProof", "rpc:eth_getCode"}, "listask": {"rpc:eth_createAccessList", "rpc:eth_getProof", "rpc:eth_getCode"}}
FK = {"err", "badargs", "empty", "null", "rpcerr", "nores", "type", "obj", "arr", "json", "html", "trunc", "cut", "vals", "short"} | {"%s:%d" % (k, i) for k in ("drop", "nul", "num", "emp", "x", "max", "idx") for i in range(16)}
def vary(o):
    k = h(o); return dict(o, op=k % 4 == 0, latest=k // 4 % 3 == 0, sim=k // 12 % 4 == 0, order=("fwd", "rev", "one", "last")[k // 48 % 4], form=k // 192 % 3)
def go(ck, name, c, sim, limit):
    r = tlc.must("Call", c, ["INIT Init", "NEXT Next", "INVARIANT Inv"], timeout=600, heap="8g", workers=1 if sim else 6, simulate=sim, depth=60 if sim else None, seed=ck.seed)
    ck.spec("Call/" + name, r); prod.replay(ck, "Call/" + name, [vary(o) for o in r["out"]], callpj.job, limit=limit, chunk=8, strat=lambda x: (x["dev"], x["ok"], x["op"], sorted(x["ov"].values())[-1]))
def run(ck):
    q = not ck.thorough
    L = dict(Keys={"k1", "k2", "k3"}, Vals={0, 5}, Kinds={"call", "dcall", "scall", "ccode"}, Targets={"A", "B", "C", "N", "P"}, Peeks={"log", "bal", "size", "hash", "copy", "self"},
             Ends={"ret", "rev", "stop"}, Overs={"none"}, Devs=P, MaxOps=8, MaxDepth=4, Simulate=True)
    go(ck, "small", dict(L, Keys={"k1", "k2"}, Vals={5}, Kinds={"call", "dcall"}, Targets={"A", "B", "N"}, Peeks={"bal"}, Ends={"ret"}, MaxOps=2, MaxDepth=2, Simulate=False), None, 1500 if q else None)
    go(ck, "prover", L, 1500 if q else 20000, 1500 if q else 20000)
    go(ck, "overrides", dict(L, Overs={"none", "bal", "code", "diff", "state", "statecode", "empty"}), 2000 if q else 20000, 2000 if q else 20000)
    go(ck, "faults", dict(L, Overs={"none", "diff"}, Devs={"%s|%s|%s" % (m, c, k) for m in RPC for c in RPC[m] for k in FK}), 3000 if q else 40000, 2500 if q else 40000)
