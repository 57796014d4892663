"""A request is only answered by a proof made for it."""
import prod, dispj
P = {"bal", "nonce", "code", "storage", "proof", "blknum", "blkhash", "bn", "txhash", "txbh", "txbn", "receipt", "logs", "verlogs"}
L = {"chainId", "accounts", "proto", "client", "sha3", "net", "decode"}
def run(ck):
    O = set(dispj.NAMES) | {"call"}
    for k in (2,) if not ck.thorough else (2, 4):
        D = dict(proof=P | {"none", "call", "sync", "bad"}, data=P | {"none"} | set(dispj.DATA), msg={"full", "empty", "ctype", "version", "sync"}, chain={"main", "sepo", "gno"}, com={"not"})
        sc = prod.scenarios(ck, "Dispatch/%d" % k, "Dispatch", dict(Provable=P, Local=L, Others=O, Chains={"main", "sepo", "gno"}, DataKinds=set(dispj.DATA), D=D, K=k))
        prod.replay(ck, "Dispatch/%d" % k, sc, dispj.job, limit=9000 if k == 2 else 60000, chunk=8, strat=lambda x: (x["s"]["m"], x["s"]["proof"], x["ok"]))
