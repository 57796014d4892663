"""Runs TLC on a specification of /verif/spec and collects what it emits.

A specification prints records with PrintT("@@" \\o ToJson(rec)); every such line is one scenario (a behaviour or a product point)."""
import hashlib, json, os, re, subprocess, tempfile, shutil, time
import build as B
SPEC = os.path.join(B.ROOT, "spec")
class TlcError(Exception): pass
class Raw(str): "a TLA+ expression"
def _short(t):
    t = "\n".join(l for l in t.split("\n") if not l.startswith(("Parsing file", "Semantic processing", "Picked up")))
    i = t.find("Errors:"); i = t.find("Error:") if i < 0 else i
    return t[max(0, i - 200):][:1800]
def tla(v):
    if isinstance(v, Raw): return str(v)
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return '"%s"' % v
    if isinstance(v, (set, frozenset)): return "{" + ", ".join(tla(x) for x in sorted(v, key=repr)) + "}"
    if isinstance(v, (list, tuple)): return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict): return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)
def run(module, consts, extra, workers=1, simulate=None, depth=None, timeout=800, seed=1, heap="4g", files=None, deadlock=False, limit=None):
    """module: spec name; consts: constant values; extra: further cfg lines. Returns dict(states, distinct, depth, out=[records])"""
    d = tempfile.mkdtemp(prefix="tlc", dir=os.path.join(B.BUILD))
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"): shutil.copy(os.path.join(SPEC, f), d)
        for n, t in (files or {}).items(): open(os.path.join(d, n), "w").write(t)
        mc = "MC"
        body = "---- MODULE MC ----\nEXTENDS %s\n" % module
        cfg = []
        for k, v in consts.items(): body += "c_%s == %s\n" % (k, tla(v)); cfg.append("CONSTANT %s <- c_%s" % (k, k))
        open(os.path.join(d, "MC.tla"), "w").write(body + "====\n")
        open(os.path.join(d, "MC.cfg"), "w").write("\n".join(cfg + extra) + "\n")
        cmd = ["tlc"]
        cmd += ["-config", "MC.cfg", "-workers", str(workers), "-metadir", os.path.join(d, "md"), "-seed", str(seed), "-fp", "1"]
        if not deadlock: cmd += ["-deadlock"]
        if simulate: cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth)]
        cmd += ["MC.tla"]
        env = dict(os.environ, JAVA_TOOL_OPTIONS="-Xmx%s -Xss32m" % heap)
        t = time.time()
        p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        out, rest = [], []
        import threading
        tm = threading.Timer(timeout, p.kill); tm.start()
        try:
            for l in p.stdout:
                if l.startswith('"@@'): out.append(json.loads(json.loads(l)[2:]))
                else: rest.append(l)
        finally: tm.cancel()
        p.wait()
        txt = "".join(rest)
        ok = "No error has been found" in txt or (simulate and p.returncode == 0)
        m = re.search(r"(\d+) states generated, (\d+) distinct", txt)
        dp = re.search(r"depth of the complete state graph search is (\d+)", txt)
        g = re.search(r"(\d+) states checked|The number of states generated: (\d+)", txt)
        r = {"states": int(m.group(2)) if m else 0, "transitions": int(m.group(1)) if m else (int(g.group(1) or g.group(2)) if g else 0), "depth": int(dp.group(1)) if dp else 0, "out": out, "txt": txt, "ok": bool(ok), "wall": time.time() - t}
        if not ok and "is violated" not in txt and "POSTCONDITION" not in txt and "ostcondition" not in txt: raise TlcError("%s: rc=%s\n%s" % (module, p.returncode, _short(txt)))
        return r
    finally: shutil.rmtree(d, ignore_errors=True)
def must(module, consts, extra, **kw):
    r = run(module, consts, extra, **kw)
    if not r["ok"]: raise TlcError("the specification %s violates its own properties:\n%s" % (module, _short(r["txt"])))
    return r
