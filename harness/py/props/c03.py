"""The stored trust state stays consistent: bounded, no period without keys, newest and oldest kept, crash at any write."""
import lc
from tlc import Raw
def inits(sets):
    return Raw("{" + ", ".join('[c \\in Chains |-> [mode |-> "per", cp |-> 0, com |-> [p \\in {%s} |-> T(p)]]]' % ", ".join(map(str, s)) for s in sets) + "}")
NK = {("down", "first"), ("evil", "last"), ("low", "last"), ("extra", "first"), ("skip", "first"), ("trunc", "last"), ("dup", "first")}
def run(ck):
    lim = None if ck.thorough else 900
    for m in ((1, 2, 3, 8, 12) if not ck.thorough else (0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 100)):
        lc.run_config(ck, "retain-%d" % m, dict(Chains={"A"}, M=m, NetKinds=NK, Signers={"T", "P", "E"}, Per={1, 2, 4, 6} if m < 5 else {2, 5, 11, 14}, CrashOn=True, MaxSteps=3 if ck.thorough else 2,
                                                PushKinds={("ok", "none", 1, 2), ("evil", "none", 1, 2)} if m < 5 else {("ok", "none", 2, 4)}), limit=lim)
    # from every small set of stored periods
    import itertools
    full = [s for k in (1, 2, 3) for s in itertools.combinations(range(1, 7), k)]
    lc.run_config(ck, "any-state", dict(Chains={"A"}, M=3, NetKinds=NK, Signers={"T", "E"}, Per={1, 3, 5, 6, 7}, CrashOn=True, MaxSteps=1, Init0=inits(full)), limit=1500 if not ck.thorough else None)
    # the newest period is known, but not the one before: its keys cannot be taken from an unproven answer
    for p, sets in ((3, [(1, 4), (2, 4)]), (5, [(1, 6), (2, 4, 6)])):
        lc.run_config(ck, "back-%d" % p, dict(Chains={"A"}, M=3, NetKinds={("back", "first"), ("swap", "first")}, Signers={"T", "E"}, Per={p}, MaxSteps=1, Init0=inits(sets)))
