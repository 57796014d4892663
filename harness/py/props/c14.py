"""Transactions are those of the chain, at the place they claim."""
import prod, txj
MP = {"short", "long", "tamper", "empty", "other", "swapped", "last"}
D = dict(state={"oth", "evil"}, idx={"other", "past", "wrap", "huge"}, tx={"other", "byte", "foreign", "trunc", "ext", "empty"}, bh={"wrong"}, bn={"wrong"}, bf={"wrong"}, mp=MP, hdr={"other", "body", "slot", "state"}, data={"given", "type"}, req={"upper", "badhash", "headhash", "shorthash", "longhash", "idx32", "idx64", "num32", "num64", "parent", "stateroot", "badidx", "tag", "nextblock"})
M = {"hash", "bh", "bn"}
def run(ck, methods=M, D=D, allc={"main/deneb", "main/electra", "sepo/electra", "gno/electra", "chi/electra"}, lim=(7000, 2000, 6000), ats=set(range(22))):
    q = not ck.thorough
    st = lambda x: (x["s"]["method"], x["s"]["shape"], x["ok"]) + tuple(sorted((k, str(v)) for k, v in x["s"].items() if k not in ("method", "shape", "at", "chain") and v not in ("ok", "cur")))[:1 if q else 2]
    for n, k, cs, sh, at, l in (("", 1, allc, {"all", "wd", "two"}, ats, lim[0]), ("m", 1, {"main/electra"}, {"many"}, {0, 1, 127, 128, 255, 256, 259}, lim[1]), ("", 2, {"main/electra"} if q else allc, {"all", "two", "wd"}, {0, 3} if q else ats, lim[2])):
        nm = "Tx/%d%s" % (k, n)
        sc = prod.scenarios(ck, nm, "Tx", dict(Methods=methods, Shapes=sh, Ats=at, Chains=cs, D=D, K=k))
        prod.replay(ck, nm, sc, txj.job, history=True, limit=l if q else None, chunk=8, strat=st)
