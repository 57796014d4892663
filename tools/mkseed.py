"""mkseed.py <id>: (re)creates the helper files of a planted bug from seeded/<id>/{patch.diff,demo.py,meta.json}"""
import os, shutil, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with cwd /repo after the build; exit 0: the behaviour is right
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d /tmp/demo.XXXXXX)"
export VERIF_BUILD="$W" VERIF_REPO="$(pwd)" PYTHONPATH="$D/h/py" PYTHONDONTWRITEBYTECODE=1
timeout 280 python3 "$D/demo.py"; rc=$?
case "$W" in /tmp/demo.*) rm -rf "$W";; esac
exit $rc
'''
def mk(i):
    d = os.path.join(R, "seeded", i); h = os.path.join(d, "h")
    shutil.rmtree(h, ignore_errors=True); os.makedirs(os.path.join(h, "py"))
    for f in (f for f in os.listdir(os.path.join(R, "harness")) if f.endswith((".c", ".h"))): shutil.copy(os.path.join(R, "harness", f), h)
    shutil.copytree(os.path.join(R, "harness", "fakes"), os.path.join(h, "fakes"))
    for f in os.listdir(os.path.join(R, "harness", "py")):
        if f.endswith((".py", ".c")) and f != "check.py": shutil.copy(os.path.join(R, "harness", "py", f), os.path.join(h, "py"))
    if not os.path.exists(os.path.join(d, "demo.sh")): open(os.path.join(d, "demo.sh"), "w").write(SH); os.chmod(os.path.join(d, "demo.sh"), 0o755)
for i in sys.argv[1:]: mk(i)
