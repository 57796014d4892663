"""Histories of operations are generated from a specification, run by the real code, and the recorded answers are validated by TLC against the same specification."""
import json, time, tlc, pool
def gen(ck, name, module, consts, init="InitGen", nxt="NextGen", inv="InvGen", simulate=None, depth=None, timeout=600, heap="6g"):
    r = tlc.must(module, dict(consts, TraceFile=""), ["INIT " + init, "NEXT " + nxt, "INVARIANT " + inv], timeout=timeout, heap=heap, workers=1 if simulate else 6, simulate=simulate, depth=depth, seed=ck.seed)
    ck.spec(name, r); return [json.loads(x) for x in sorted({json.dumps(x["h"]) for x in r["out"]})]
def run(ck, name, hists, fn, chunk=8):
    """fn(sut, history) -> recorded trace (a list of steps); crashes are violations. Returns [(history, trace)]"""
    out = []
    for h, k, v in pool.run(fn, hists, deadline=time.time() + max(10, ck.left()), chunk=chunk):
        if k == "late": ck.notes["late"] = ck.notes.get("late", 0) + 1; continue
        if k == "crash":
            k2, v2 = pool._run((fn, h, None))
            if k2 == "crash": ck.violation("%s: %s" % (name, v), {"spec": name, "history": h, "what": v})
            continue
        out.append((h, v))
    return out
def validate(ck, name, module, consts, pairs, timeout=600, heap="8g", keyf=None):
    """TLC accepts or rejects each trace"""
    if not pairs: return
    n = 0
    for a in range(0, len(pairs), 20000):
        part = pairs[a:a + 20000]
        r = tlc.must(module, dict(consts, TraceFile="traces.json"), ["INIT InitVal", "NEXT NextVal", "INVARIANT InvVal"], files={"traces.json": json.dumps([t for _, t in part])}, timeout=timeout, heap=heap, workers=8)
        ck.spec(name + "/validation", r); ck.replayed += len(part)
        for x in r["out"]:
            h, t = part[x["tr"] - 1]
            ck.violation("%s: step %d: %s\n%s" % (name, x["i"], x["why"], json.dumps(t[:x["i"]])[:1500]), {"spec": name, "history": h, "trace": t, "step": x["i"], "what": x["why"]}, key=keyf(x) if keyf else None)
    for h, t in pairs[:3]: ck.sample(spec=name, trace=t)
    ck.notes.setdefault("scenarios", {})[name] = {"enumerated": len(pairs), "replayed": len(pairs)}
