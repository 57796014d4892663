"""The result of a contract call and its events are those of the execution on the proven state."""
import zlib, json
import prod, callj, tlc
h = lambda o: zlib.crc32(json.dumps(o, sort_keys=True).encode())
def go(ck, name, c, sim, limit):
    r = tlc.must("Call", c, ["INIT Init", "NEXT Next", "INVARIANT Inv"], timeout=600, heap="8g", workers=1 if sim else 6, simulate=sim, depth=60 if sim else None, seed=ck.seed)
    ck.spec("Call/" + name, r); prod.replay(ck, "Call/" + name, [dict(o, op=h(o) % 4 == 0) for o in r["out"]], callj.job, limit=limit, chunk=16)
def run(ck):
    q = not ck.thorough
    S = dict(Keys={"k1"}, Vals={5, 6}, Kinds={"call", "dcall"}, Targets={"A", "B"}, Peeks={"log"}, Ends={"ret", "rev"}, Overs={"none"}, Devs={"none"}, MaxOps=4, MaxDepth=3, Simulate=False)
    D = {"none", "none2", "data", "fetch", "keepcode", "noacc", "badkey", "goneKey", "nokey", "badfetch", "unused", "unusedall", "badcode", "emptycode", "forged", "addr", "wrongdata", "longdata", "root", "reqblk", "sig"}
    L = dict(Keys={"k1", "k2", "k3"}, Vals={0, 5, 6}, Kinds={"call", "dcall", "scall", "ccode"}, Targets={"A", "B", "C", "N", "P"}, Peeks={"log", "bal", "size", "hash", "copy", "copyend", "self"},
             Ends={"ret", "rev", "inv", "stop"}, Overs={"none", "bal", "code", "diff", "state", "statecode", "empty"}, Devs={"none"}, MaxOps=16, MaxDepth=5, Simulate=True)
    go(ck, "frames", S, None, 4000 if q else 20000)
    go(ck, "execution", L, 1000 if q else 20000, 3000 if q else 60000)
    go(ck, "proof", dict(L, Devs=D, MaxOps=6, Ends={"ret", "rev"}, MaxDepth=3), 1000 if q else 20000, 3000 if q else 60000)
