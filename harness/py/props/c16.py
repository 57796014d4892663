"""Logs are genuine and asked for."""
import prod, logj
D = dict(state={"evil"}, lg={"drop", "dup", "order", "extra", "unproven", "addr", "topic", "topicdrop", "topicadd", "data", "blockhash", "number", "txhash", "txidx", "removed", "index", "wrongtx", "fabricated", "wrongblock"},
         pos={"last", "deep"}, pb={"dropblock", "dupblock", "none", "duptx", "dupfake", "droptx"}, tx={"byte", "other"}, rp={"trunc", "other", "forged", "foreign", "empty"}, bh={"wrong"}, bn={"wrong"}, mp={"short", "long", "tamper", "empty", "other", "swapped", "last"}, hdr={"other", "body", "slot", "state"}, data={"none", "type", "given"})
F = {"none", "emptyarr", "addr0", "addrs", "t0", "nt1", "or", "t0n", "or2", "hash", "range", "one", "upto", "tag", "two", "empty", "upper", "deep"}
def run(ck):
    q = not ck.thorough
    for k in (1, 2) if q else (1, 2, 3):
        sc = prod.scenarios(ck, "Logs/%d" % k, "Logs", dict(Methods={"get", "ver"}, Ats={"last", "first", "firsttx"}, Filters=F if k < 3 else {"none", "addr0", "two", "or2", "hash", "tag"}, D=D, K=k))
        prod.replay(ck, "Logs/%d" % k, sc, logj.job, history=True, limit={1: None, 2: 10000, 3: 40000}[k] if q or k == 3 else None, chunk=8, strat=lambda x: (x["s"]["method"], x["s"]["lg"], x["s"]["pb"], x["ok"], x["s"]["hdr"], x["s"]["tx"], x["s"]["at"]))
