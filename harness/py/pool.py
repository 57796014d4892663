"""Runs replay jobs on several driver processes in parallel."""
import multiprocessing as mp, os, traceback, sut, time
_s = {}; KIND = "asan"
def get():
    k = KIND, os.getpid()                      # a forked worker never uses the driver of its parent
    if k not in _s: _s[k] = sut.Sut(KIND)
    return _s[k]
def _run(a):
    fn, job, deadline = a
    if deadline and time.time() > deadline: return ("late", None)
    s = get()
    try: return ("ok", fn(s, job))
    except sut.SutCrash as e:
        try: s.reset()
        except Exception: pass
        return ("crash", str(e))
    except Exception:
        return ("bug", traceback.format_exc())
def run(fn, jobs, workers=None, deadline=None, chunk=1):
    """yields (job, kind, value)"""
    workers = workers or int(os.environ.get("VERIF_WORKERS", "8"))
    import build; build.build(KIND)
    if len(jobs) == 0: return
    ctx = mp.get_context("fork")
    with ctx.Pool(min(workers, len(jobs))) as p:
        for job, (k, v) in zip(jobs, p.imap(_run, [(fn, j, deadline) for j in jobs], chunk)):
            if k == "bug": p.terminate(); raise RuntimeError(v)
            yield job, k, v
