#!/usr/bin/env python3
"""Run the checks against the seeded changes in scratch copies:
python3 tools/seedcheck.py [-j N] [-k SUBSTR] [--all]   (--all: every check, not only the property's own)"""
import sys, os, json, subprocess, argparse, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument("-j", type=int, default=4); ap.add_argument("-k", default=""); ap.add_argument("--all", action="store_true")
a = ap.parse_args()
q = queue.Queue()
for d in sorted(os.listdir(V + "/seeded")):
    if a.k in d: q.put(d)
checks = [c.get("property") for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
def work(i):
    slot, wk = f"/tmp/scslot{i}", f"/tmp/scwork{i}"
    subprocess.run(["rm", "-rf", slot, wk])
    subprocess.run(["git", "clone", "-q", "/repo", slot], check=True)
    while True:
        try: s = q.get_nowait()
        except queue.Empty: break
        p = json.load(open(f"{V}/seeded/{s}/meta.json"))["property"]
        subprocess.run(["git", "-C", slot, "checkout", "-q", "--", "."])
        subprocess.run(["git", "-C", slot, "apply", f"{V}/seeded/{s}/patch.diff"], check=True)
        env = dict(os.environ, KV_REPO=slot, KV_WORK=wk, VERIF_SEED="1", VERIF_TIER="quick", KV_EVIDENCE=wk)
        res = []
        for c in (checks if a.all else [p]):
            try:
                r = subprocess.run([sys.executable, "-m", "kv.check", c], cwd=V, env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired: res.append(f"{c}:timeout"); continue
            v = [l for l in r.stdout.splitlines() if l.startswith(f"VIOLATION property={c}")]
            if r.returncode == 1 and v: res.append(f"{c}:caught")
            elif c == p: res.append(f"{c}:MISSED rc={r.returncode} {r.stdout[-200:]} {r.stderr[-200:]}")
            elif r.returncode: res.append(f"{c}:rc{r.returncode}")
        print(f"{s:28} [{p}] {' '.join(res)}", flush=True)
    subprocess.run(["rm", "-rf", slot, wk])
ts = [threading.Thread(target=work, args=(i,)) for i in range(min(a.j, q.qsize()))]
[t.start() for t in ts]; [t.join() for t in ts]
