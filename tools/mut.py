"""Development tool: apply textual variants of /repo's sources in scratch copies and run checks on each.
usage: mut.py FILE [-j N] [-k substr] [--props C01,C02]
FILE is a python file defining MUTS = [(name, [props], file, old, new), ...]; name may start with "ok:" for
variants that keep the behaviour (every check must stay quiet)."""
import argparse
import os
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("file")
ap.add_argument("-j", type=int, default=4)
ap.add_argument("-k", default="")
ap.add_argument("--props", default="")
a = ap.parse_args()
muts = [m for m in runpy.run_path(a.file)["MUTS"] if a.k in m[0]]
slots = Queue()
for i in range(a.j):
    d = "/tmp/mutslot%d" % i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["rsync", "-a", "--exclude", "target", "--exclude", ".git", "/repo/", d + "/repo/"], check=False) \
        if shutil.which("rsync") else shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns("target", ".git"))
    shutil.copytree(VERIF + "/.work", d + "/work")
    slots.put(d)


def one(m):
    name, props, f, old, new = m[:5]
    d = slots.get()
    try:
        p = os.path.join(d, "repo", f)
        s = open(p).read()
        if s.count(old) < 1:
            return name, "NO MATCH"
        n = m[5] if len(m) > 5 else 0
        parts = s.split(old)
        i = n + 1
        t = old.join(parts[:i]) + new + old.join(parts[i:])
        open(p, "w").write(t)
        out = []
        try:
            for c in (a.props.split(",") if a.props else props):
                e = dict(os.environ, KV_REPO=d + "/repo", KV_WORK=d + "/work", KV_EVID=d + "/ev")
                r = subprocess.run([sys.executable, "-m", "kv.check", c, "-v"], cwd=VERIF, env=e, timeout=1500,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                ls = r.stdout.splitlines()
                v = [l for l in ls if l.strip().startswith("[violated")]
                u = [l for l in ls if l.strip().startswith("[undecided")]
                out.append("%s rc=%d viol=%d und=%d %s" % (c, r.returncode, len(v), len(u),
                           (v[0].strip() if v else u[0].strip() if u else "" if r.returncode in (0, 1) else ls[-1] if ls else "")[:220]))
        finally:
            open(p, "w").write(s)
        return name, "\n      ".join(out)
    except subprocess.TimeoutExpired:
        return name, "TIMEOUT"
    finally:
        slots.put(d)


with ThreadPoolExecutor(a.j) as ex:
    for name, r in ex.map(one, muts):
        caught = "viol=0" not in r and "viol=" in r
        anyc = any("viol=" in l and "viol=0" not in l for l in r.splitlines())
        flag = ("FALSE-ALARM" if anyc else "ok") if name.startswith("ok:") else ("caught" if anyc else "MISSED")
        print("%-11s %s\n      %s" % (flag, name, r), flush=True)
for i in range(a.j):
    shutil.rmtree("/tmp/mutslot%d" % i, ignore_errors=True)
