"""Trust starts only from the configured (or independently fetched) checkpoint."""
import lc
FORGED = {"swapz", "swap1", "swapl", "agg", "branch0", "branchl", "slot", "state", "body"}
BK = {"down", "wrong", "evil", "swap", "branch", "junk", "json"}
def run(ck):
    lim = None if ck.thorough else 2500
    for c in (("A", "F") if not ck.thorough else "ABCDFG"):
        lc.run_config(ck, "boot" + c, dict(Chains={c}, BootKinds=BK, CpzKinds={"down", "junk", "short"}, CpKinds={"none", "good", "other"}, Signers={"T", "P", "E", "L", "X", "N"}, Per={1, 2, 3, 4}, MaxSteps=3,
                                           NetKinds={("down", "first"), ("evil", "first")}, CrashOn=True,
                                           PushKinds={("none", b, 0, 0) for b in BK - {"down", "junk", "json"} | {"ok"}} | {("ok", "ok", 2, 2), ("evil", "ok", 2, 2), ("ok", "evil", 2, 2), ("ok", "none", 2, 2)}), limit=lim)
    lc.run_config(ck, "forged", dict(Chains={"A"}, BootKinds=FORGED, CpKinds={"none", "good"}, Signers={"T", "E"}, Per={2, 3}, MaxSteps=2, PushKinds={("none", b, 0, 0) for b in FORGED} | {("ok", "state", 2, 2)}), limit=lim)
