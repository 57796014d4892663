"""Every accepted header carries a signature of a 2/3 majority of a known committee for this chain, fork and header."""
import prod, anchor
D = dict(store={"cur", "prev", "none"}, com={"prev", "next", "old", "evil"}, n={0, 1, 341, 342, 511}, bits={"more", "fewer", "moved"}, fork={"older", "newer"}, gen={"other"}, typ={"other"},
         hdr={"slot", "proposer", "parent", "state", "body"}, sig={"zero", "inf", "flip", "honestother"}, prime={"same", "fake", "foreign", "near", "neartail"})
def run(ck):
    q = not ck.thorough
    sc = prod.scenarios(ck, "Anchor/sig", "Anchor", dict(Chains={"A", "B"} if q else {"A", "B", "C", "D"}, Eras={"deneb", "electra"} if q else {"deneb", "electra", "fulu"}, Poss={"mid", "last", "first"} if q else {"first", "mid", "prelast", "last", "forklast", "forkfirst", "forksecond"}, D=D, K=2, Kinds={"sig"}))
    prod.replay(ck, "Anchor/sig", sc, anchor.job, history=True, limit=None if q else 60000, strat=lambda x: (x["s"]["chain"], x["ok"], x["s"]["com"], x["s"]["n"], x["s"]["prime"]))
    sc = prod.scenarios(ck, "Anchor/edge", "Anchor", dict(Chains={"A", "B", "C", "D"}, Eras={"deneb", "electra", "fulu"}, Poss={"first", "mid", "prelast", "last", "forklast", "forkfirst", "forksecond"}, D=D, K=1, Kinds={"sig"}))
    prod.replay(ck, "Anchor/edge", sc, anchor.job, history=True, limit=3000 if q else None, strat=lambda x: (x["s"]["chain"], x["s"]["era"], x["s"]["pos"], x["ok"]))
    if ck.thorough:
        sc = prod.scenarios(ck, "Anchor/3dev", "Anchor", dict(Chains={"A"}, Eras={"electra"}, Poss={"mid"}, D=D, K=3, Kinds={"sig"}))
        prod.replay(ck, "Anchor/3dev", sc, anchor.job, history=True, limit=60000)
