"""Runs a product specification (every state is one scenario) and replays all or a sample of the scenarios."""
import time, tlc, pool, collections, functools
def scenarios(ck, name, module, consts, timeout=600, heap="4g"):
    r = tlc.must(module, consts, ["INIT Init", "NEXT Next", "INVARIANT Inv"], timeout=timeout, heap=heap, workers=6)
    ck.spec(name, r)
    return r["out"]
class Same:
    """the driver inside a history: all its messages meet the same process"""
    def __init__(self, su, users): self.su = su; self.users = users
    def __getattr__(self, n): return getattr(self.su, n)
    def push(self):
        if self.users: self.su.cmd("sclear")          # the messages are those of different users of the same prover
    def pop(self): pass
def after(fn, su, x):
    """a scenario after the messages x["after"] (Product.tla: the verdict is a function of the scenario alone)"""
    if not x.get("after"): return fn(su, x)
    su.push()
    o = Same(su, x.get("users"))
    for y in x["after"]: fn(o, dict(x, s=y["s"], ok="any"))
    r = fn(o, x); su.pop()
    if r: t = " (after %s)" % ["the same" if y["s"] == x["s"] else y["ok"] for y in x["after"]]; r = (r[0], r[1] + t) if isinstance(r, tuple) else r + t
    return r
def histories(ck, scen, honest, world=True):
    """gives half of the scenarios a history: the honest scenario next to it, itself, or both and another one; if there are different worlds (world: scenario -> world) some of its own"""
    g = collections.defaultdict(list)
    if world is not True:
        for x in honest: g[world(x)].append(x)
        for i, x in enumerate(scen):
            h = g.get(world(x))
            if i % 2 == 0 and h: scen[i] = dict(x, users=True, after=[{"s": y["s"], "ok": y["ok"]} for y in ck.rnd.choices(h, k=1 + i // 2 % 3)])
        return scen
    for x in honest: g[x["s"].get("method")].append(x)
    for k in g: ck.rnd.shuffle(g[k]); g[k] = g[k][:60]
    for i, x in enumerate(scen):
        h = g.get(x["s"].get("method"))
        if i % 2 or not h: continue
        d = lambda y: sum(1 for f in x["s"] if x["s"][f] != y["s"].get(f))
        n = min((y for y in h if y is not x), key=d, default=h[0]); o = scen[ck.rnd.randrange(len(scen))]
        l = [[n], [n], [x], [n, x, o]][i // 2 % 4]
        scen[i] = dict(x, after=[{"s": y["s"], "ok": y["ok"]} for y in l])
    return scen
def replay(ck, name, scen, fn, limit=None, chunk=4, keyf=None, strat=None, history=False, kind="asan"):
    """fn(sut, scenario) -> None if the code agrees, else a description. strat(scenario) groups for stratified sampling"""
    import json, build
    if kind != "asan":
        try: build.build(kind)
        except build.BuildError as e:            # another configuration than the one under test: its build is not the subject of the property
            ck.notes.setdefault("not_built", []).append([kind, str(e)[-300:]]); return
    pool.KIND = kind
    scen = sorted(scen, key=lambda x: json.dumps(x, sort_keys=True))
    total = len(scen); honest = [x for x in scen if history and x["ok"] == "yes"]
    if limit and total > limit:
        if strat:
            g = collections.defaultdict(list)
            for x in scen: g[strat(x)].append(x)
            pick = [x for x in scen if x.get("ok") == "yes"]         # every honest scenario is replayed
            if len(pick) > limit // 2: ck.rnd.shuffle(pick); pick = pick[:limit // 2]
            seen = set(map(id, pick))
            for k in g: g[k] = [x for x in g[k] if id(x) not in seen]
            per = max(1, limit // len(g))
            for k in sorted(g, key=str): ck.rnd.shuffle(g[k]); pick += g[k][:per]; g[k] = g[k][per:]
            rest = [x for k in sorted(g, key=str) for x in g[k]]; ck.rnd.shuffle(rest)
            scen = pick + rest[:max(0, limit - len(pick))]
        else: ck.rnd.shuffle(scen); scen = scen[:limit]
    ck.rnd.shuffle(scen)
    if history: scen = histories(ck, scen, honest, history); fn = functools.partial(after, fn)
    late = 0; stat = collections.Counter()
    for x, k, v in pool.run(fn, scen, deadline=time.time() + max(10, ck.left()), chunk=chunk):
        if k == "late": late += 1; continue
        ck.replayed += 1
        stat[{True: "accept", False: "reject", "yes": "accept", "no": "reject", "any": "either (truth checked)"}.get(x.get("ok"), "other")] += 1
        if k == "crash" or v:
            k2, v2 = pool._run((fn, x, None))
            if k2 == "crash" or (k2 == "ok" and v2):
                key, v = v if isinstance(v, tuple) else (keyf(x) if keyf else None, v)      # a job may name the known finding it ran into
                ck.violation("%s: %s" % (name, v), {"spec": name, "scenario": x, "what": v}, key=key)
        elif len(ck.samples) < 6: ck.sample(spec=name, scenario=x)
    pool.KIND = "asan"
    ck.notes.setdefault("verdicts", {})[name] = dict(stat)
    if late: ck.notes["scenarios_skipped_for_time"] = ck.notes.get("scenarios_skipped_for_time", 0) + late
    ck.notes.setdefault("scenarios", {})[name] = {"enumerated": total, "replayed": len(scen) - late}
