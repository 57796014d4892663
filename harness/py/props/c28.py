"""The TypeScript client delivers the truth or an error, whatever its servers do."""
import prod, tsj, tlc
from props.c26 import lists
def run(ck):
    q = not ck.thorough
    tsj.bundle()
    base = lambda m, cl, prov, api="request", st="VerifyIfPossible": '[m |-> "%s", client |-> "%s", prov |-> %s, rpc |-> <<"ok">>, bea |-> <<"ok">>, chk |-> <<"ok">>, api |-> "%s", strat |-> "%s", n |-> "one", conf |-> "plain"]' % (m, cl, prov, api, st)
    ms = ["bal", "txhash", "blknum", "receipt", "logs", "bn"]
    b1 = [base(m, cl, p) for p in ("<<>>", '<<"ok">>') for m in ms for cl in ("have", "cp", "none", "badcp")] + [base(m, "have", "<<>>") for m in ("gas", "chainId", "nope", "sha3")]
    D = '[prov |-> %s, rpc |-> %s, bea |-> %s, chk |-> %s, api |-> {"rpc"}, n |-> {"two", "par"}, strat |-> {"VerifiedOnly", "WarningWithFallback"}, conf |-> {"chain", "debug"}]' % (lists(["ok", "down", "e500", "html", "wrong", "empty"], 2), lists(["ok", "down", "retry", "e500", "html", "empty", "null", "wrong"], 2), lists(["ok", "e404", "down", "html", "wrong"], 2), lists(["ok", "down", "html", "e500"], 2))
    sc = prod.scenarios(ck, "ClientTs/pairs", "ClientTs", dict(Bases0=tlc.Raw("{" + ", ".join(b1) + "}"), D=tlc.Raw(D), K=2))
    prod.replay(ck, "ClientTs/pairs", sc, tsj.job, limit=4000 if q else 40000, chunk=8, strat=lambda x: (x["s"]["m"], x["s"]["client"], x["ok"], x["s"]["strat"], len(x["s"]["prov"])))
    D2 = '[rpc |-> {<<"more">>, <<"less">>, <<"wrong">>, <<"down", "more">>}, strat |-> {"WarningWithFallback"}, conf |-> {"chain", "debug"}]'
    sc = prod.scenarios(ck, "ClientTs/lists", "ClientTs", dict(Bases0=tlc.Raw("{" + ", ".join(base(m, "have", p) for m in ("logs", "bal", "receipt", "blknum") for p in ("<<>>", '<<"ok">>')) + "}"), D=tlc.Raw(D2), K=3))
    prod.replay(ck, "ClientTs/lists", sc, tsj.job, limit=300, chunk=8)
    D3 = '[rpc |-> %s, strat |-> {"WarningWithFallback"}]' % lists(["ok", "down", "retry", "e500"], 3)
    sc = prod.scenarios(ck, "ClientTs/three", "ClientTs", dict(Bases0=tlc.Raw("{" + ", ".join(base(m, "have", "<<>>") for m in ms + ["gas"]) + "}"), D=tlc.Raw(D3), K=2))
    prod.replay(ck, "ClientTs/three", sc, tsj.job, limit=600, chunk=8)
