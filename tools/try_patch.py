#!/usr/bin/env python3
"""Runs checks against a scratch copy of /repo with a patch applied (development aid, not a check).

usage: try_patch.py [-R] PATCH PROPERTY... [-- run_check options]
Prints one line per property: caught / quiet, and the first line of the message."""
import os, shutil, subprocess, sys, tempfile
a = sys.argv[1:]
rev = a and a[0] == "-R"
if rev: a = a[1:]
opts = []
if "--" in a:
    opts = a[a.index("--") + 1:]; a = a[:a.index("--")]
patch, props = os.path.abspath(a[0]), a[1:]
if props == ["all"]: props = ["P%02d" % i for i in range(1, 41)]
tmp = tempfile.mkdtemp(prefix="try-", dir="/tmp")
try:
    repo, verif = tmp + "/repo", tmp + "/verif"
    subprocess.run(["git", "-c", "advice.detachedHead=false", "clone", "-q", "/repo", repo], check=True)
    subprocess.run(["git", "apply", "--unidiff-zero"] + (["-R"] if rev else []) + [patch], cwd=repo, check=True)
    os.mkdir(verif)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for n in ("run_check.py", "monitor", ".build"):
        subprocess.run(["cp", "-a", here + "/" + n, verif + "/" + n], check=True)
    env = dict(os.environ, RIPCALC_REPO=repo)
    for p in props:
        r = subprocess.run([verif + "/run_check.py", p] + opts, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        lines = [l for l in r.stdout.splitlines() if l.strip()]
        msg = " | ".join(lines[-40:])[:int(os.environ.get("W","700"))]
        print("%s %s %s [%d] %s" % (os.path.basename(patch), p, {0: "quiet ", 1: "CAUGHT"}.get(r.returncode, "ERROR "), r.returncode, msg), flush=True)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
