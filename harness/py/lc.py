"""Replays behaviours of LightClient.tla against the real code."""
import json, re, functools
from world import *
import tlc, pool, sut
from tlc import Raw
BASE = {"A": (MAINNET, 1430), "B": (GNOSIS, 2640), "C": (SEPOLIA, 900), "D": (CHIADO, 1900), "F": (MAINNET, 1419), "G": (GNOSIS, 2610),
        "H": (SEPOLIA, 1430), "I": (CHIADO, 2640)} # H, I: the same periods as A, B; F, G cross the deneb/electra fork
OTHER = {"A": SEPOLIA, "B": CHIADO, "C": MAINNET, "D": GNOSIS, "F": SEPOLIA, "G": CHIADO, "H": MAINNET, "I": GNOSIS}
def ch(c): return BASE[c][0]
def rp(c, p): return BASE[c][1] + p
def com(c, k, p): return committee("%s/%d/%d" % (k, ch(c).id, rp(c, p)))
def slot0(c, p): return rp(c, p) * ch(c).spp
def fin_salt(c, p): return "canon/%s/%d" % (c, p)
def fin_slot(c, p): return slot0(c, p) + 3000 - 64
# an update at the first slots of a period finalizes a block of the period before
EDGE = {"early": (5, -96, "canonE/%s/%d"), "first": (0, -96, "canonE/%s/%d"), "late": (8190, 8128, "canonL/%s/%d")}
def canonical(c, slot):
    for p in range(-1, 24):
        if fin_slot(c, p) == slot: return header(slot, fin_salt(c, p))
        for _, f, n in EDGE.values():
            if slot0(c, p) + f == slot: return header(slot, n % (c, p))
def flip(b, i=5): return b[:i] + bytes([b[i] ^ 1]) + b[i + 1:]
@functools.lru_cache(None)
def update(c, kind, q):
    """serialized update of attested period q"""
    chn = ch(c); signer, nxt = com(c, "T", q), com(c, "T", q + 1); kw = dict(salt="u/%s/%s/%d" % (c, kind, q), fin_salt=fin_salt(c, q)); tw = None; at = slot0(c, q) + 3000
    if kind == "low": kw["bits"] = bits_n(341)
    elif kind == "evil": signer, nxt = com(c, "E", q), com(c, "E", q + 1)
    elif kind == "swap":
        kw["salt"] = "u/%s/ok/%d" % (c, q)
        def tw(u): u["nextSyncCommittee"] = com(c, "E", q + 1).val
    elif kind == "branch":
        def tw(u): u["nextSyncCommitteeBranch"][2] = flip(u["nextSyncCommitteeBranch"][2])
    elif kind == "badfin":
        def tw(u): u["finalityBranch"][2] = flip(u["finalityBranch"][2])
    elif kind in ("swapz", "swapf", "swap1", "swapl", "agg"):
        kw["salt"] = "u/%s/ok/%d" % (c, q)
        def tw(u):
            n = {"pubkeys": list(nxt.keys), "aggregatePubkey": nxt.val["aggregatePubkey"]}; e = com(c, "E", q + 1)
            if kind == "swap1": n["pubkeys"][0] = e.keys[0]
            elif kind == "swapl": n["pubkeys"][511] = e.keys[511]
            elif kind == "agg": n["aggregatePubkey"] = e.val["aggregatePubkey"]
            else: n = e.val; u["nextSyncCommitteeBranch"] = [bytes(32)] * len(u["nextSyncCommitteeBranch"]) if kind == "swapz" else u["finalityBranch"][1:]
            u["nextSyncCommittee"] = n
    elif kind in ("branch0", "branchl"):
        def tw(u): i = 0 if kind == "branch0" else -1; u["nextSyncCommitteeBranch"][i] = flip(u["nextSyncCommitteeBranch"][i], 31)
    elif kind in ("fin0", "finl"):
        def tw(u): i = 0 if kind == "fin0" else -1; u["finalityBranch"][i] = flip(u["finalityBranch"][i], 31)
    elif kind == "finz":
        def tw(u): u["finalizedHeader"] = lc_header({"slot": 0, "proposerIndex": 0, "parentRoot": bytes(32), "stateRoot": bytes(32), "bodyRoot": bytes(32)}, "z"); u["finalityBranch"] = [bytes(32)] * len(u["finalityBranch"])
    elif kind in ("finslot", "finbody"):
        def tw(u):
            h = u["finalizedHeader"]["beacon"]
            if kind == "finslot": h["slot"] += 32
            else: h["bodyRoot"] = flip(h["bodyRoot"])
    elif kind in ("zsig", "infsig"):
        def tw(u): u["syncAggregate"]["syncCommitteeSignature"] = (b"\xc0" if kind == "infsig" else b"\0") + bytes(95)
    elif kind.startswith("att"):
        def tw(u):
            h = u["attestedHeader"]["beacon"]
            if kind == "attslot": h["slot"] += 32
            elif kind == "attprop": h["proposerIndex"] += 1
            elif kind == "attbody": h["bodyRoot"] = flip(h["bodyRoot"])
            elif kind == "attpar": h["parentRoot"] = flip(h["parentRoot"])
            else:
                v, e = make_update(chn, slot0(c, q) + 3000, com(c, "E", q), com(c, "E", q + 1), salt="x" + kw["salt"], fin_salt=kw["fin_salt"])
                h["stateRoot"] = v["attestedHeader"]["beacon"]["stateRoot"]
                for k in ("nextSyncCommittee", "nextSyncCommitteeBranch", "finalityBranch", "finalizedHeader"): u[k] = v[k]
    elif kind == "other": kw["sign_chain"] = OTHER[c]
    elif kind == "prev": signer = com(c, "T", q - 1)
    elif kind == "next": signer = com(c, "T", q + 1)
    elif kind in EDGE: at = slot0(c, q) + EDGE[kind][0]; kw["fin_slot"] = slot0(c, q) + EDGE[kind][1]; kw["fin_salt"] = EDGE[kind][2] % (c, q)
    elif kind == "lr1c": nxt = com(c, "E", q + 1)
    elif kind == "lr1": nxt = com(c, "E", q + 1); kw["fin_salt"] = "forged/%s/%d" % (c, q)
    elif kind == "lr2": signer, nxt = com(c, "E", q), com(c, "E", q + 1); kw["fin_salt"] = "forged/%s/%d" % (c, q)
    u, e = make_update(chn, at, signer, nxt, tweak=tw, **kw)
    b = ser_update(u, e)
    if kind == "badssz": b = b[:4] + (0xfffffff0).to_bytes(4, "little") + b[8:] if False else b[:len(b) - 9]
    return b, e
def updates(c, kind, pos, a, b):
    """the beacon node's answer for the attested periods a..b"""
    n = b - a + 1; ix = 0 if pos == "first" else n - 1; g = lambda x, y: [update(c, "ok", q) for q in range(x, y + 1)]
    if kind in ("ok", "lh"): return updates_response(g(a, b), kind == "lh")
    if kind == "skip": return updates_response(g(a + 1, b) if pos == "first" else g(a, b - 1))
    if kind == "dup": return updates_response(g(a, a) + g(a, b))
    if kind == "rev": return updates_response(g(a, b)[::-1])
    if kind == "extra": return updates_response(g(a, b + 1))
    if kind == "empty": return b""
    if kind == "json": return b'{"code":404,"message":"no update available"}'
    if kind == "junk": return b"\xff" * 300
    if kind == "evil": return updates_response([update(c, "evil" if i >= ix else "ok", a + i) for i in range(n)])
    if kind in ("lrfirst", "lrtail"): return updates_response([update(c, "lr2" if i else "lr1c" if kind == "lrfirst" and n > 1 else "lr1", a + i) for i in range(n)] + ([update(c, "ok", a)] if kind == "lrtail" and n > 1 else []))
    if kind in ("lrange", "lrbogus"): return updates_response([update(c, "lr1" if i == 0 else "lr2", a + i) for i in range(n)] + ([update(c, "other", b + 1)] if kind == "lrbogus" else []))
    if kind == "back":
        # the only form of an answer the fallback "take the keys of the period before from its update" accepts: made up keys, and a length which reads as a slot of the deneb fork
        u = ser_update(*make_update(ch(c), slot0(c, a) + 3000, com(c, "E", a), com(c, "E", a), salt="back/%s/%d" % (c, a)))
        n = 8700000; return (4).to_bytes(4, "little") + n.to_bytes(8, "little") + bytes(4) + u + bytes(n - len(u))
    if kind == "trunc":
        full = updates_response([update(c, "ok", a + i) for i in range(ix + 1)]); return full[:-777]
    return updates_response([update(c, kind if i == ix else "ok", a + i) for i in range(n)])
@functools.lru_cache(None)
def bootstrap(c, kind, p):
    chn = ch(c); tw = None; sl = slot0(c, p) + 2048; salt = "boot/%s/%d" % (c, p); k = com(c, "T", p)
    if kind == "wrong": salt += "/2"; sl += 32
    if kind == "evil": salt += "/e"; k = com(c, "E", p)
    if kind == "swap":
        def tw(b): b["currentSyncCommittee"] = com(c, "E", p).val
    if kind == "branch":
        def tw(b): b["currentSyncCommitteeBranch"][1] = flip(b["currentSyncCommitteeBranch"][1])
    if kind in ("swapz", "swap1", "swapl", "agg"):
        def tw(b):
            n = {"pubkeys": list(k.keys), "aggregatePubkey": k.val["aggregatePubkey"]}; e = com(c, "E", p)
            if kind == "swap1": n["pubkeys"][0] = e.keys[0]
            elif kind == "swapl": n["pubkeys"][511] = e.keys[511]
            elif kind == "agg": n["aggregatePubkey"] = e.val["aggregatePubkey"]
            else: n = e.val; b["currentSyncCommitteeBranch"] = [bytes(32)] * len(b["currentSyncCommitteeBranch"])
            b["currentSyncCommittee"] = n
    if kind in ("branch0", "branchl"):
        def tw(b): i = 0 if kind == "branch0" else -1; b["currentSyncCommitteeBranch"][i] = flip(b["currentSyncCommitteeBranch"][i], 31)
    if kind in ("slot", "state", "body"):
        def tw(b):
            h = b["header"]["beacon"]
            if kind == "slot": h["slot"] += chn.spp
            elif kind == "body": h["bodyRoot"] = flip(h["bodyRoot"], 0)
            else:
                v, _, _ = make_bootstrap(chn, sl, com(c, "E", p), salt); h["stateRoot"] = v["header"]["beacon"]["stateRoot"]
                b["currentSyncCommittee"], b["currentSyncCommitteeBranch"] = v["currentSyncCommittee"], v["currentSyncCommitteeBranch"]
    b, e, root = make_bootstrap(chn, sl, k, salt, tw)
    return lc_bootstrap_t(e).ser(b), root, b, e
def answer(c, env):
    def f(q):
        u = q["url"]; bad = Exception("source not reachable")
        if q["chain"] != ch(c).id: return bad
        m = re.match(r"eth/v1/beacon/light_client/updates\?start_period=(\d+)&count=(\d+)", u)
        if m:
            if env["net"] == "down": return bad
            a = int(m.group(1)) - BASE[c][1]; n = int(m.group(2))
            if n < 1 or n > 64 or a < -2: return bad
            return updates(c, env["net"], env["pos"], a, a + n - 1)
        m = re.match(r"eth/v1/beacon/light_client/bootstrap/0x([0-9a-f]{64})", u)
        if m:
            k = env["boot"]
            if k == "down": return bad
            if k == "junk": return b"\x01\x02" * 700
            if k == "json": return b'{"code":404,"message":"unknown"}'
            for p in range(0, 12):
                if bootstrap(c, "ok", p)[1].hex() == m.group(1): return bootstrap(c, k, p)[0]
            return bad
        if "finality_checkpoints" in u:
            k = env["cpz"]
            if k == "down": return bad
            if k == "junk": return b'{"data":{"finalized":{"epoch":"12"}}}'
            if k == "short": return b'{"data":{"finalized":{"epoch":"12","root":"0x1234"}}}'
            p = env["bp"]; return json.dumps({"data": {"finalized": {"epoch": str((slot0(c, p) + 2048) >> ch(c).spe), "root": "0x" + bootstrap(c, "ok", p)[1].hex()}}}).encode()
        m = re.match(r"eth/v1/beacon/blocks/(\d+)/root", u)
        if m:
            k = env["wsp"]
            if k == "down": return bad
            if k == "junk": return b'{"data":{}}'
            if k == "short": return b'{"data":{"root":"0x12"}}'
            if k == "wrong": return json.dumps({"data": {"root": "0x" + rnd("no").hex()}}).encode()
            h = canonical(c, int(m.group(1)))
            if h: return json.dumps({"data": {"root": "0x" + HEADER.htr(h).hex()}}).encode()
            return json.dumps({"data": {"root": "0x" + rnd("other").hex()}}).encode()
        return bad
    return f
@functools.lru_cache(None)
def blk(c, p, tag): return Block(ch(c), slot0(c, p) + 4500, payload("lc/%s/%d/%s" % (c, p, tag), number=1000 + p), salt="lc/%s/%d/%s" % (c, p, tag))
@functools.lru_cache(None)
def bnproof(c, p, s, tag="v"):
    b = blk(c, p, tag + s)
    k = {"T": com(c, "T", p), "P": com(c, "T", p - 1), "N": com(c, "T", p + 1), "X": com(c, "T", p), "L": com(c, "T", p), "E": com(c, "E", p)}[s]
    kw = {}
    if s == "L": kw["bits"] = bits_n(341)
    if s == "X": kw["gvr"] = OTHER[c].gvr
    return {"blockNumber": b.pl["blockNumber"], "timestamp": b.pl["timestamp"], "proof": b.mp([806, 809]), "header": b.header, "header_proof": b.sigproof(k, **kw)}
@functools.lru_cache(4096)
def req(c, p, s, ps, tag="v"):
    sy = (0, None)
    if ps:
        kind, boot, a, b, cp = ps
        ups = []
        if kind != "none":
            n = b - a + 1; ix = n - 1
            if kind == "skip": ups = [update(c, "ok", a + i) for i in range(n - 1)]
            elif kind == "evil": ups = [update(c, "evil" if i >= ix else "ok", a + i) for i in range(n)]
            else: ups = [update(c, kind if i == ix else "ok", a + i) for i in range(n)]
        bo = (0, None)
        if boot != "none": bb = bootstrap(c, boot, cp); bo = (2 if bb[3] else 1, Pre(bb[0]))
        sy = (1, {"bootstrap": bo, "update": [(1 if e else 0, Pre(u)) for u, e in ups]})
    return request(proof=(P_BLOCKNUM, bnproof(c, p, s, tag)), sync=sy)
def do_verify(s, ev, bp):
    c = ev["c"]; env = dict(ev["env"], bp=bp); ps = ev["ps"]
    pk = None if ps["kind"] == "none" and ps["boot"] == "none" else (ps["kind"], ps["boot"], ps["a"], ps["b"], ev.get("pcp") or bp)
    cp = None if ev["cp"] == "none" else "0x" + bootstrap(c, "ok", bp if ev["cp"] == "good" else bp + 1)[1].hex()
    st, res, ok, log = s.verify(req(c, ev["p"], ev["s"], pk), "eth_blockNumber", "[]", ch(c).id, answer(c, env), checkpoint=cp)
    good = st == "success" and ok
    if good and res != hex(1000 + ev["p"]): return None, "wrong result %r" % (res,)
    if st not in ("success", "error"): return None, "verification ended with %s: %r" % (st, [q["url"] for q in log][:6])
    return good, res
def do_crash(s, ev, bp, k):
    """runs until the k-th write; returns True if the run completed before"""
    s.cmd("crash", k)
    try: do_verify(s, ev, bp)
    except sut.PowerLoss: return False
    s.cmd("crash", -1)
    return True
def observe(s, c):
    """the trust state as the code reports it: (mode, checkpoint root, listed periods)"""
    v = s.sget(states_key(ch(c).id))
    if not v: return ("empty", None, ())
    if v[0] == 2 and len(v) == 33: return ("cp", v[1:], ())
    ps = [int.from_bytes(v[i:i + 4], "little") for i in range(1, len(v) - 3, 4)]
    if not ps: return ("empty", None, ())
    return ("per", None, tuple(ps))
def expected(c, m):
    if m["mode"] == "cp": return ("cp", bootstrap(c, "ok", m["cp"])[1], ())
    if m["mode"] == "per": return ("per", None, tuple(sorted(rp(c, x[0]) for x in m["com"])))
    return ("empty", None, ())
DEADENV = {"net": "down", "boot": "down", "cpz": "down", "wsp": "down", "pos": "first"}
def probe(s, c, o, extra=()):
    """with all sources down: exactly the genuine committees of the listed periods are trusted"""
    if o[0] != "per": return None
    s.push()
    try:
        for r in sorted(set(o[2]) | set(extra)):
            p = r - BASE[c][1]
            for sg in ("T", "E"):
                st, res, ok, _ = s.verify(req(c, p, sg, None, "p"), "eth_blockNumber", "[]", ch(c).id, answer(c, dict(DEADENV, bp=0)))
                want = sg == "T" and r in o[2]
                if (st == "success" and ok) != want: return "with all sources down a header of period %d signed by its %s committee is %s" % (p, "genuine" if sg == "T" else "forged", "accepted" if not want else "rejected: %s" % res)
    finally: s.pop()
    return None
def load_init(s, ini):
    for c, m in ini.items():
        if m["mode"] == "per": store_periods(s, ch(c), [(rp(c, x[0]), com(c, x[1], x[2])) for x in m["com"]])
        elif m["mode"] == "cp": s.sset(states_key(ch(c).id), b"\x02" + bootstrap(c, "ok", m["cp"])[1])
def compare(s, chains, post, probes=True):
    for c in chains:
        o = observe(s, c); e = expected(c, post[c])
        if (o[0], o[1], tuple(sorted(o[2]))) != e: return "trust state of chain %s: the specification has %r, the code has %r" % (c, fmt(e), fmt(o))
        if probes:
            w = probe(s, c, o)
            if w: return w
    return None
def fmt(o): return (o[0], o[1].hex() if o[1] else None, list(o[2]))
def group_job(s, job):
    """job: {prefix: history, edges: [...], bp, M, restart}: returns (number replayed, violation or None)"""
    s.push()
    n = 0
    try:
        s.cmd("max", job["M"])
        pre = job["prefix"]; chains = sorted(pre[0]["st"])
        load_init(s, pre[0]["st"])
        def restart():
            kv, _ = s.sdump(); s.pop(); s.push(); s.cmd("max", job["M"]); s.sload(kv)
        for ev in pre[1:]:
            if ev["a"] == "restart": restart(); continue
            if ev["a"] == "crash":
                # reach the state the specification kept: the first cut with it
                kv0, _ = s.sdump(); w = None
                for k in range(0, 40):
                    done = do_crash(s, ev, job["bp"], k); kv, r = s.sdump(); s.pop(); s.push(); s.cmd("max", job["M"]); s.sload(kv)
                    o = observe(s, ev["c"])
                    if (o[0], o[1], tuple(sorted(o[2]))) == expected(ev["c"], ev["kept"]): w = True; break
                    if done: break
                    s.pop(); s.push(); s.cmd("max", job["M"]); s.sload(kv0)
                if not w: return n, ("a crash state the specification reaches is not reached by the code", pre, None)
                continue
            ok, why = do_verify(s, ev, job["bp"])
            if ok != ev["ok"]: return n, ("verification %s: the specification %s it (%s)" % ("accepted" if ok else "rejected", "accepts" if ev["ok"] else "rejects", why), pre, ev)
        if job.get("restart"): restart()
        w = compare(s, chains, job["pre"])
        if w: return n, (w, pre, None)
        for e in job["edges"]:
            ev = e["h"][-1]
            if ev["a"] in ("verify", "readonly"):
                s.push()
                try:
                    if ev["a"] == "readonly": s.cmd("crash", 0, 1)
                    ok, why = do_verify(s, ev, job["bp"]); n += 1
                    if ok != ev["ok"]: return n, ("verification %s: the specification %s it (%s)" % ("accepted" if ok else "rejected" if ok is False else "broken", "accepts" if ev["ok"] else "rejects", why), e["h"], ev)
                    w = compare(s, chains, e["post"], probes=e["pre"] != e["post"] or ev["s"] != "T")
                    if w: return n, (w, e["h"], ev)
                finally: s.pop()
            else:
                allowed = [expected(ev["c"], t) for t in ev["tr"]]; k = 0; at = 0
                while k < 60:
                    s.push()
                    try:
                        done = do_crash(s, ev, job["bp"], k); kv, r = s.sdump(); n += 1
                    finally: s.pop()
                    # a fresh process sees only what was written
                    kv = {k_: v for k_, v in kv.items()}
                    s.push()
                    try:
                        s.cmd("sclear"); s.sload(kv)
                        o = observe(s, ev["c"]); oo = (o[0], o[1], tuple(sorted(o[2])))
                        if oo not in allowed: return n, ("power loss after %d writes leaves %r, the specification allows %r" % (k, fmt(o), [fmt(a) for a in allowed]), e["h"], ev)
                        w = probe(s, ev["c"], o)
                        if w: return n, ("power loss after %d writes: %s" % (k, w), e["h"], ev)
                    finally: s.pop()
                    if done: break
                    k += 1
                if oo != allowed[-1]: return n, ("the completed run leaves %r, the specification %r" % (fmt(o), fmt(allowed[-1])), e["h"], ev)
        return n, None
    finally:
        try: s.pop()
        except sut.SutCrash: raise
def run_config(ck, name, consts, probes=None, limit=None, spec_timeout=300, restart=0.5, props=True):
    full = dict(Chains={"A"}, Gap=None, M=3, Per=set(range(1, 7)), BP=2, Signers={"T"}, NetKinds=set(), BootKinds=set(), CpzKinds=set(), WspKinds=set(), CpKinds={"none"}, PushKinds=set(), CrashOn=False, MaxSteps=3, Init0=None)
    full.update(consts)
    chains = sorted(full["Chains"])
    if full["Gap"] is None: full["Gap"] = Raw("[c \\in {%s} |-> IF c \\in {\"B\", \"D\", \"G\", \"I\"} THEN 2 ELSE 14]" % ", ".join('"%s"' % c for c in chains))
    if full["Init0"] is None: full["Init0"] = Raw("{[c \\in Chains |-> Empty]}")
    full["PushKinds"] = {Raw(tlc.tla({"kind": k, "boot": bo, "a": a, "b": b})) for k, bo, a, b in full["PushKinds"]}
    r = tlc.must("LightClient", full, "SPECIFICATION Spec\nVIEW View\nINVARIANT Genuine Bounded NotStuck\nPROPERTY Isolated KeepNewest KeepOldest OnlyGenuineAccepted AnchorOnce\nACTION_CONSTRAINT Emit".split("\n"), timeout=spec_timeout)
    ck.spec("LightClient/" + name, r)
    groups = {}
    seen = set()
    for e in r["out"]:
        h = e["h"]; key = json.dumps(h[:-1], sort_keys=True)
        if h[-1]["a"] == "crash":
            k2 = key + json.dumps({k: v for k, v in h[-1].items() if k != "kept"}, sort_keys=True)
            if k2 in seen: continue
            seen.add(k2)
        groups.setdefault(key, []).append(e)
    total = sum(len(g) for g in groups.values())
    jobs = []
    for key, es in groups.items():
        es = es[:]
        if limit and total > limit:
            ck.rnd.shuffle(es); keep = max(20, len(es) * limit // total); es = es[:keep]
        for i in range(0, len(es), 60): jobs.append({"prefix": es[0]["h"][:-1], "pre": es[0]["pre"], "edges": es[i:i + 60], "bp": full["BP"], "M": full["M"], "restart": ck.rnd.random() < restart})
    ck.rnd.shuffle(jobs)
    for c in chains: # shared by the workers
        for p in range(0, 10):
            for k in "TE": com(c, k, p)
        for p in range(0, 4): bootstrap(c, "ok", p)
    dead = time.time() + max(10, ck.left())
    late = 0
    for job, k, v in pool.run(group_job, jobs, deadline=dead):
        if k == "late": late += 1; continue
        if k == "crash": ck.violation("LightClient/%s: the code under test crashed or hung: %s" % (name, v), {"config": name, "job": job}); continue
        n, bad = v; ck.replayed += n
        if bad:
            # confirm on a fresh process
            k2, v2 = pool._run((group_job, job, None))
            if k2 == "crash" or (k2 == "ok" and v2[1]): ck.violation("LightClient/%s: %s" % (name, bad[0]), {"config": name, "history": bad[1], "event": bad[2], "M": full["M"]})
        if len(ck.samples) < 6 and job["edges"]: ck.sample(config=name, history=[{k: x for k, x in e.items() if k in ("a", "c", "p", "s", "env", "ok")} for e in job["edges"][0]["h"]])
    if late: ck.notes["jobs_skipped_for_time"] = ck.notes.get("jobs_skipped_for_time", 0) + late
    return r
import time
