"""Client of the driver process."""
import json, os, subprocess, select, build as B
class SutCrash(Exception): pass
class PowerLoss(Exception): pass
def hx(s):
    if s is None: return "-"
    if isinstance(s, str): s = s.encode()
    return s.hex() or "-"
class Sut:
    def __init__(self, kind="asan", timeout=120):
        self.exe = B.build(kind); self.timeout = timeout; self.p = None; self.inner = False; self.start()
    def start(self):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:exitcode=99:detect_stack_use_after_return=0", UBSAN_OPTIONS="halt_on_error=1:exitcode=98")
        self.err = open(os.path.join(B.BUILD, "sut.%d.err" % os.getpid()), "w+b")
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, bufsize=0, start_new_session=True)
        self.buf = b""
    def _read(self):
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], self.timeout)
            if not r: self.kill(); raise SutCrash("the code under test did not answer within %d s" % self.timeout)
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d: raise SutCrash("driver process died: " + self.stderr())
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return json.loads(l.decode("latin1"), strict=False)
    def stderr(self):
        self.err.flush(); self.err.seek(0, 2); n = self.err.tell(); self.err.seek(max(0, n - 200000)); t = self.err.read().decode("latin1")
        i = t.rfind("ERROR: AddressSanitizer")
        return t[i:i + 1500] if i >= 0 else t[-800:]
    def kill(self):
        if self.p: self.group(); self.p.wait(); self.p = None
    def group(self):
        try: os.killpg(self.p.pid, 9)              # forked episodes as well
        except OSError: pass
    def raw(self, line):
        try: self.p.stdin.write(line.encode() + b"\n")
        except BrokenPipeError: raise SutCrash("driver process died: " + self.stderr())
        return self._read()
    def cmd(self, *a):
        r = self.raw(" ".join(str(x) for x in a))
        if "crash" in r: self.inner = False; raise SutCrash("crash rc=%s sig=%s: %s" % (r["crash"], r["sig"], self.stderr()))
        if "power" in r: raise PowerLoss()
        assert "bad" not in r, "unknown command %s" % a[0]
        return r
    def begin(self):
        if self.inner: self.end()
        self.cmd("begin"); self.inner = True
    def end(self):
        if not self.inner: return
        self.inner = False
        r = self.raw("end")
        if "crash" in r: raise SutCrash("crash at end rc=%s" % r["crash"])
    def close(self):
        if self.p:
            try: self.p.stdin.close(); self.p.wait(5)
            except Exception: pass
            self.group()
            self.p = None
        try: os.unlink(self.err.name)
        except OSError: pass
    # ---- storage
    def sset(self, k, v): self.cmd("sset", hx(k), hx(v))
    def sget(self, k):
        v = self.cmd("sget", hx(k))["v"]; return None if v is None else bytes.fromhex(v)
    def sload(self, kv):
        for k, v in kv.items(): self.sset(k, v)
    # ---- nested episodes: push() forks, pop() returns to the state before
    def push(self): self.cmd("begin")
    def pop(self):
        r = self.raw("end")
        if "crash" in r: raise SutCrash("crash at end rc=%s: %s" % (r["crash"], self.stderr()))
    def reset(self):
        """forget everything (after a crash)"""
        self.kill(); self.start()
    def sdump(self):
        r = self.cmd("sdump"); return {k: bytes.fromhex(v) for k, v in r["kv"].items()}, r
    # ---- verifier
    def vnew(self, slot, proof, method, args, chain, checkpoint=None, witness=None):
        return self.cmd("vnew", slot, hx(proof), hx(method), hx(args), chain, hx(checkpoint), hx(witness))
    def vstep(self, slot): return self.cmd("vstep", slot)
    def vfree(self, slot): return self.cmd("vfree", slot)
    def resp(self, ptr, data, node=0): return self.cmd("resp", ptr, hx(data), node)
    def rerr(self, ptr, msg, node=0): return self.cmd("rerr", ptr, hx(msg), node)
    def verify(self, proof, method, args, chain, answer=None, checkpoint=None, witness=None, slot=0, maxit=40):
        """runs the host loop; answer(req)->bytes | Exception | None. Returns (status, result/err, ok, log of requests)"""
        self.vnew(slot, proof, method, args, chain, checkpoint, witness)
        log = []
        for _ in range(maxit):
            r = self.vstep(slot); st = r["st"]
            if st["status"] != "pending":
                self.vfree(slot)
                return st["status"], st.get("result", st.get("error")), r["ok"], log
            n = 0
            for q in r["all"]:
                if not q["pending"]: continue
                n += 1; log.append(q)
                a = answer(q) if answer else Exception("no data source")
                if isinstance(a, Exception): self.rerr(q["ptr"], str(a))
                else: self.resp(q["ptr"], a)
            if n == 0:
                self.vfree(slot); return "stuck", None, r["ok"], log
        self.vfree(slot); return "loop", None, False, log
