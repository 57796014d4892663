"""Light client updates: only committees authenticated by a known committee become trusted."""
import lc
KINDS = "down low evil swap branch badfin other skip dup rev extra empty json junk lh prev next trunc badssz early first late".split()
FORGED = "swapz swapf swap1 swapl branch0 branchl agg finz finslot finbody fin0 finl zsig infsig attslot attprop attbody attpar attstate".split()
NK = {(k, "first") for k in KINDS} | {(k, "last") for k in "low evil swap branch badfin other skip trunc badssz prev early first late".split()}
NF = {(k, p) for k in FORGED for p in ("first", "last")}
PK = {(k, "none", a, b) for k in "ok low evil swap branch badfin other skip prev next early first late".split() for a, b in ((1, 1), (2, 2), (2, 3), (4, 4))}
def run(ck):
    lim = None if ck.thorough else 4000
    lc.run_config(ck, "fetch", dict(Chains={"A"}, NetKinds=NK, Signers={"T", "P", "E"}, Per=set(range(1, 7)), MaxSteps=3), limit=lim)
    lc.run_config(ck, "forged", dict(Chains={"A"}, NetKinds=NF, Signers={"T", "E"}, Per=set(range(2, 5)), MaxSteps=2, PushKinds={(k, "none", 2, 2) for k in FORGED}), limit=lim)
    lc.run_config(ck, "push", dict(Chains={"A"}, PushKinds=PK, Signers={"T"}, Per=set(range(2, 6)), MaxSteps=3), limit=lim)
    # the first and last slots of a period, also where the fork changes (period 3 is the first one of the next fork)
    EK = {(k, p) for k in ("early", "first", "late") for p in ("first", "last")}
    for c in "AF" if not ck.thorough else "ABCDFG": lc.run_config(ck, "edge" + c, dict(Chains={c}, NetKinds=EK, PushKinds={(k, "none", a, a) for k, _ in EK for a in (2, 3, 4)}, Signers={"T", "E"}, Per=set(range(2, 6)), MaxSteps=2, BP=1), limit=lim and 600)
    lc.run_config(ck, "forkcross", dict(Chains={"F"}, NetKinds=NK, PushKinds={p for p in PK if p[2] == 2}, Signers={"T", "E"}, Per=set(range(1, 6)), MaxSteps=2), limit=lim)
    if ck.thorough:
        for c in "BCD": lc.run_config(ck, "fetch" + c, dict(Chains={c}, NetKinds=NK, Signers={"T", "E"}, Per=set(range(1, 5)), MaxSteps=2), limit=6000)
