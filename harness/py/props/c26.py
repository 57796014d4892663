"""The Python client delivers the truth or an error, whatever its servers do."""
import itertools, prod, hostj, tlc
def lists(bs, n): return "{<<>>, " + ", ".join("<<" + ",".join('"%s"' % x for x in t) + ">>" for k in range(1, n + 1) for t in itertools.product(bs, repeat=k)) + "}"
def run(ck):
    q = not ck.thorough
    base = lambda m, cl, prov: '[m |-> "%s", client |-> "%s", prov |-> %s, rpc |-> <<"ok">>, bea |-> <<"ok">>, chk |-> <<"ok">>]' % (m, cl, prov)
    ms = ["bal", "txhash", "blknum", "receipt", "logs", "bn"]
    b1 = [base(m, cl, "<<>>") for m in ms for cl in ("have", "cp", "none")] + [base(m, cl, '<<"ok">>') for m in ms for cl in ("have", "cp", "none", "badcp")] + [base(m, "have", "<<>>") for m in ("gas", "chainId", "sub", "nope")]
    D = '[prov |-> %s, rpc |-> %s, bea |-> %s, chk |-> %s]' % (lists(["ok", "down", "e500", "html", "wrong", "empty"], 2), lists(["ok", "down", "retry", "e500", "html", "empty", "null", "wrong"], 2), lists(["ok", "e404", "down", "html", "wrong"], 2), lists(["ok", "down", "html", "e500"], 2))
    sc = prod.scenarios(ck, "Client/pairs", "Client", dict(Bases0=tlc.Raw("{" + ", ".join(b1) + "}"), D=tlc.Raw(D), K=2))
    prod.replay(ck, "Client/pairs", sc, hostj.job, limit=3000 if q else 30000, chunk=8, strat=lambda x: (x["s"]["m"], x["s"]["client"], x["ok"], len(x["s"]["prov"])))
    D3 = '[rpc |-> %s]' % lists(["ok", "down", "retry", "e500"], 3)
    sc = prod.scenarios(ck, "Client/three", "Client", dict(Bases0=tlc.Raw("{" + ", ".join(base(m, "have", "<<>>") for m in ms + ["gas"]) + "}"), D=tlc.Raw(D3), K=1))
    prod.replay(ck, "Client/three", sc, hostj.job, limit=600, chunk=8)
