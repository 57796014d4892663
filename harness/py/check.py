"""check.py <property> <quick|thorough>: runs one check. exit 0: held; 1: VIOLATION; anything else: the machinery failed."""
import importlib, json, os, random, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "props"))
import build as B
class Violation(Exception):
    def __init__(s, what, replay): super().__init__(what); s.what, s.replay = what, replay
class Ck:
    def __init__(s, pid, tier):
        s.pid, s.tier, s.seed = pid, tier, int(os.environ.get("VERIF_SEED", "1") or 1)
        s.t0 = time.time(); s.states = s.transitions = s.replayed = 0; s.samples = []; s.viol = []; s.specs = []; s.notes = {}; s.rnd = random.Random(s.seed * 7919 + sum(map(ord, pid)))
        s.budget = float(os.environ.get("VERIF_BUDGET", "150" if tier == "quick" else "780"))
        s.known = [l.strip() for l in open(os.path.join(B.ROOT, "known_findings.txt")) if l.strip().startswith("finding:")] if os.path.exists(os.path.join(B.ROOT, "known_findings.txt")) else []
        s.known_hit = set()
        import glob
        for f in glob.glob(os.path.join(B.ROOT, "out", "replay", pid + "-*.json")): os.unlink(f)
    @property
    def thorough(s): return s.tier == "thorough"
    def left(s): return s.budget - (time.time() - s.t0)
    def spec(s, name, r):
        s.states += r["states"] or len(r["out"]); s.transitions += r["transitions"]; s.specs.append({"spec": name, "states": r["states"], "transitions": r["transitions"], "depth": r["depth"], "emitted": len(r["out"]), "wall_s": round(r["wall"], 2)})
    def sample(s, **kw):
        if len(s.samples) < 12:
            t = json.dumps(kw, default=str); s.samples.append(kw if len(t) < 3000 else {"text": t[:1500] + "..."})
    def violation(s, what, replay, key=None):
        """records a violation; `key` identifies it in the known findings file"""
        if key:
            for l in s.known:
                p = dict(x.split("=", 1) for x in l.split() if "=" in x)
                if p.get("property") == s.pid and p.get("key") == key:
                    if key not in s.known_hit: s.known_hit.add(key); print("KNOWN-FINDING: property=%s %s" % (s.pid, l.split("what=", 1)[-1]))
                    return
        d = os.path.join(B.ROOT, "out", "replay"); os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%d.json" % (s.pid, len(s.viol)))
        json.dump({"property": s.pid, "what": what, "replay": replay}, open(f, "w"), indent=1, default=lambda o: o.hex() if isinstance(o, bytes) else repr(o))
        s.viol.append({"what": what[:500], "replay": f})
        print("VIOLATION property=%s replay=%s" % (s.pid, f)); print("  " + what[:1500].replace("\n", "\n  ")); sys.stdout.flush()
        if len(s.viol) >= 5: raise Stop()
    def finish(s, mod):
        os.makedirs(os.path.join(B.ROOT, "evidence"), exist_ok=True)
        ev = {"property": s.pid, "tier": s.tier, "seed": s.seed, "level": getattr(mod, "LEVEL", "model_checking"),
              "coverage": {"states": s.states, "transitions": s.transitions, "traces_validated_against_impl": s.replayed, "samples": s.samples, "specs": s.specs, **s.notes},
              "wall_s": round(time.time() - s.t0, 2), "violations": len(s.viol)}
        json.dump(ev, open(os.path.join(B.ROOT, "evidence", s.pid + ".json"), "w"), indent=1, default=str)
class Stop(Exception): pass
def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
    ck = Ck(pid, tier)
    os.makedirs(B.BUILD, exist_ok=True)
    mod = importlib.import_module(pid.lower())
    import sut
    try:
        try: mod.run(ck)
        except Stop: pass
        except sut.SutCrash as e: ck.violation("the code under test crashed or hung: %s" % e, {"crash": str(e), "trace": traceback.format_exc()[-3000:]})
    except Stop: pass
    ck.finish(mod)
    if not ck.viol: print("OK property=%s tier=%s states=%d transitions=%d replayed=%d wall=%.1fs" % (pid, tier, ck.states, ck.transitions, ck.replayed, time.time() - ck.t0))
    if not ck.viol and ck.replayed == 0: print("nothing was replayed"); sys.exit(3)
    sys.exit(1 if ck.viol else 0)
if __name__ == "__main__": main()
