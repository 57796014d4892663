"""Runs histories of Subs.tla through the real SubscriptionManager of the TypeScript client."""
import json, os, subprocess, atexit
import build, tsj
_p = None
def hist(su, h):
    global _p
    if _p is None:
        _p = subprocess.Popen(["node", "--no-warnings", os.path.join(tsj.JS, "subs.mjs"), os.path.join(build.BUILD, "colibri_ts.mjs")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True); atexit.register(_p.kill)
    _p.stdin.write(json.dumps(h) + "\n"); _p.stdin.flush(); r = json.loads(_p.stdout.readline())
    if isinstance(r, dict): raise RuntimeError(r["fatal"])
    return r
