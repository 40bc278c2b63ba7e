#!/usr/bin/env python3
"""Which of the changes in a directory no check reports (development aid, not a check).

usage: judge.py DIR WORKERS SECONDS [STEP]    appends to DIR/verdicts: name, property that reported it or MISSED"""
import glob, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
d, n, secs, step = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 1
ALL = ["P%02d" % i for i in range(1, 37)]  # P37 takes too long for this
FIRST = {"main": "P31 P36 P30 P22 P23 P34 P04", "addr": "P26 P29 P03 P02 P01 P27 P33", "bit_manip": "P27 P29 P18 P05 P20 P04 P07", "cidr": "P29 P01 P04 P02", "console": "P06 P08 P31 P30 P23",
         "net": "P28 P05 P04 P26 P20", "cmds/mod": "P02 P33 P01 P29 P06 P10", "cmds/derange": "P11 P12 P33 P22", "cmds/enumerate": "P19 P20 P21 P02 P33", "cmds/minimize": "P09 P10 P22 P33", "cmds/resize": "P17 P16 P18 P33 P06",
         "cmds/show_net": "P04 P02 P06 P08 P31 P07 P05", "cmds/split": "P13 P14 P15 P33 P22"}
quick = os.environ.get("QUICK")  # only the checks nearest to the file
done = set()
if os.path.exists(d + "/verdicts"): done = {l.split()[0] for l in open(d + "/verdicts")}
skip = set(os.environ.get("SKIP", "").split())  # four digits each: not worth judging
todo = [p for p in sorted(glob.glob(d + "/*.diff"))[::step] if os.path.basename(p) not in done and os.path.basename(p)[:4] not in skip]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def worker(k):
    w = "/tmp/judge-%d" % k
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + "/verif")
    subprocess.run(["git", "clone", "-q", "/repo", w + "/repo"], check=True)
    for f in ("run_check.py", "monitor", ".build"): subprocess.run(["cp", "-a", here + "/" + f, w + "/verif/" + f], check=True)
    for p in todo[k::n]:
        if subprocess.run(["git", "apply", p], cwd=w + "/repo", stderr=subprocess.DEVNULL).returncode: continue  # made for another tree
        f = re.search(r"\+\+\+ b/src/(\S+)\.rs", open(p).read()).group(1)
        order = FIRST[f].split()
        verdict = "MISSED"
        for q in order + ([] if quick else [x for x in ALL if x not in order]):
            r = subprocess.run([w + "/verif/run_check.py", q, "--seconds", secs, "--threads", str(max(2, 8 // n))], env=dict(os.environ, RIPCALC_REPO=w + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode == 1: verdict = q; break
            if r.returncode != 0: verdict = "%s-gives-%d" % (q, r.returncode); break
        with open(d + "/verdicts", "a") as o: o.write("%s %s %s\n" % (os.path.basename(p), f, verdict))
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=w + "/repo", check=True)
    shutil.rmtree(w, ignore_errors=True)
with ThreadPoolExecutor(n) as ex: list(ex.map(worker, range(n)))
