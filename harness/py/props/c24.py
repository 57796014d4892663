"""JSON means what the standard says, and a schema accepts exactly its values."""
import prod, jsonj, tlc
def tset(l): return tlc.Raw("{" + ", ".join(tlc.tla(v) for v in l) + "}")
def go(ck, name, out, fn, lim, per=30):
    full = len(out)
    if full > lim:
        good = [x for x in out if x.get("ok") or x.get("r") in ("yes", "any")]; bad = [x for x in out if not (x.get("ok") or x.get("r") in ("yes", "any"))]
        ck.rnd.shuffle(good); ck.rnd.shuffle(bad); out = good[:lim // 2]; out += bad[:lim - len(out)]
    jobs = [{"l": out[i:i + per]} for i in range(0, len(out), per)]
    c = ck.replayed; prod.replay(ck, name, jobs, fn, chunk=4); ck.replayed = c + len(out)
    ck.notes["scenarios"][name] = {"enumerated": full, "replayed": len(out)}
def run(ck):
    t = ck.thorough; E = ["INIT Init", "NEXT Next", "INVARIANT Inv"]
    r = tlc.must("JsonText", dict(Tokens=tset(jsonj.TOK), N=6 if t else 5, Trees=tset(jsonj.trees()), Starts=tset(jsonj.starts())), E, timeout=700, heap="12g", workers=8)
    ck.spec("JsonText", r); go(ck, "JsonText", sorted(r["out"], key=lambda x: str(x["x"])), jsonj.job_text, 1500000 if t else 300000, 60)
    r = tlc.must("JsonValue", dict(Chars=tset(jsonj.CH), MaxStr=4 if t else 3, Hexes=tset(jsonj.hexes()), Sizes=set(jsonj.SIZES), Schemas=[jsonj.parse_schema(s) for s in jsonj.SCHEMAS], Scalars=tset(jsonj.SCAL), K=1), E, timeout=700, heap="12g", workers=8)
    ck.spec("JsonValue", r)
    for k in ("str", "hex", "val"): go(ck, "JsonValue/" + k, sorted([x for x in r["out"] if x["k"] == k], key=str), jsonj.job_val, 400000)
