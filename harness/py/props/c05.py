"""Weak subjectivity: after a long offline gap updates only count with an independent confirmation."""
import lc
from c03 import inits
def run(ck):
    lim = None if ck.thorough else 2500
    NK = {(k, "first") for k in "down low evil swap badfin skip dup rev extra empty json junk lh trunc badssz lrange lrbogus lrfirst lrtail early first late".split()} | {(k, "last") for k in "low evil swap skip trunc badssz early late".split()}
    W = {"down", "wrong", "junk", "short"}
    for c in (("B",) if not ck.thorough else "BDG"):
        lc.run_config(ck, "gap" + c, dict(Chains={c}, BP=1, NetKinds=NK, WspKinds=W, Signers={"T", "P", "E"}, Per={1, 2, 3, 4, 5, 8}, MaxSteps=3, CrashOn=True), limit=lim)
    # the boundary on a chain with a long weak subjectivity period: 14 periods are within, 15 are not
    lc.run_config(ck, "gapA", dict(Chains={"A"}, BP=1, NetKinds={("lrange", "first"), ("lrbogus", "first"), ("lrfirst", "first"), ("lrtail", "first"), ("early", "last"), ("down", "first"), ("evil", "last")}, WspKinds=W, Signers={"T"}, Per={14, 15, 16, 17, 18}, MaxSteps=2, Init0=inits([(1,), (2, 3), (1, 4)])), limit=lim)
