"""No message of a prover crashes, misleads or poisons the verifier."""
import prod, msgj, tlc, collections
def run(ck):
    M = [[{"k": n[0], "n": min(n[1], 12)} for n in msgj.nodes(k)] for k in msgj.KINDS]
    r = tlc.must("Message", dict(Msgs=M, Fixed=msgj.FIXED, Dyn=msgj.DYN, Lists=msgj.LISTS, Offs=msgj.OFFS, Cuts=msgj.CUTS, Depth=1), ["INIT Init", "NEXT Next", "INVARIANT Inv"], timeout=600, heap="8g", workers=8)
    ck.spec("Message", r)
    g = collections.defaultdict(list)
    for x in r["out"]: g[x["m"]].append(x["h"])
    lim = 700 if not ck.thorough else 20000; jobs = []
    for m in sorted(g):
        l = sorted(g[m]); ck.rnd.shuffle(l)
        kinds = collections.defaultdict(list)
        for h in l: kinds[msgj.nodes(msgj.KINDS[m - 1])[h[-1][0] - 1][0], h[-1][1]].append(h)       # every operation on every kind of node
        sel = []; q = list(kinds.values())
        while len(sel) < lim and any(q):
            for v in q:
                if v and len(sel) < lim: sel.append(v.pop())
        if ck.thorough: sel += [[a[-1], b[-1]] for a, b in zip(sel[:800], sel[400:1200])]           # two altered messages in a row
        jobs += [{"m": m, "l": sel[i:i + 20]} for i in range(0, len(sel), 20)]
    c = ck.replayed; prod.replay(ck, "Message", jobs, msgj.job, chunk=1)
    n = ck.notes["scenarios"]["Message"]["replayed"] * 20; ck.replayed = c + min(n, sum(len(j["l"]) for j in jobs))
    ck.notes["scenarios"]["Message"] = {"enumerated": len(r["out"]), "replayed": ck.replayed - c}
