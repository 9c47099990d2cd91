#!/usr/bin/env python3
"""Plant seeded changes: python3 tools/seed.py SEEDS.py [-j N] [-k SUBSTR]

SEEDS.py defines SEEDS = [dict(id, property, edits=[(file, old, new), ...],
needs, breaks, rs= or py= demo source)].  Each one is applied in a private copy
of /repo that is bind-mounted over /repo in a mount namespace of its own, built,
run through the stable tests, and its demonstration is run before and after.
It is kept in /verif/seeded/<id> only when everything the task asks for holds."""
import sys, os, json, subprocess, argparse, shutil, importlib.util, threading, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_RS = r'''#!/bin/bash
# Exit 0 when the demonstrated behaviour is right, nonzero when it is not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable
deps=$repo/target/debug/deps
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
rustc --edition 2021 -O "$here/demo.rs" -o "$tmp/demo" \
    --extern komunikilo="$deps/libkomunikilo.rlib" -L dependency="$deps" || exit 3
timeout 200 "$tmp/demo"
'''
DEMO_PY = r'''#!/bin/bash
# Exit 0 when the demonstrated behaviour is right, nonzero when it is not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cp "$repo/target/debug/deps/libkomunikilo.so" "$tmp/komunikilo.so" || exit 3
export PYTHONPATH=$tmp:/opt/kom-venv/lib/python3.12/site-packages PYTHONDONTWRITEBYTECODE=1
timeout 200 /usr/bin/python3.12 "$here/demo.py"
'''

def sh(cmd, slot, timeout=1500):
    return subprocess.run(["unshare", "-Urm", "bash", "-c",
        f"mount --bind {slot} /repo && cd /repo && {cmd}"],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def one(s, slot):
    d = f"/tmp/seedwork/{s['id']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    git = lambda *a: subprocess.run(["git", "-C", slot, *a], capture_output=True, text=True)
    git("checkout", "-q", "--", ".")
    if "rs" in s: open(d + "/demo.rs", "w").write(s["rs"].lstrip()); open(d + "/demo.sh", "w").write(DEMO_RS)
    else: open(d + "/demo.py", "w").write(s["py"].lstrip()); open(d + "/demo.sh", "w").write(DEMO_PY)
    os.chmod(d + "/demo.sh", 0o755)
    r = sh("bash /opt/vp/build.sh", slot)
    if r.returncode: return "clean build failed: " + r.stdout[-400:]
    r = sh(f"bash {d}/demo.sh", slot)
    if r.returncode: return f"demo fails on clean tree rc={r.returncode}: " + r.stdout[-900:]
    for f, old, new in s["edits"]:
        p = f"{slot}/{f}"; t = open(p).read()
        if t.count(old) != 1: return f"edit matches {t.count(old)} times in {f}: {old[:60]!r}"
        open(p, "w").write(t.replace(old, new))
    open(d + "/patch.diff", "w").write(git("diff").stdout)
    r = sh("bash /opt/vp/build.sh", slot)
    if r.returncode: git("checkout", "-q", "--", "."); return "patched build failed: " + r.stdout[-900:]
    out = f"{d}/out.json"
    r = sh(f"bash /opt/vp/test.sh {out}", slot)
    try: passed = set(json.load(open(out)).get("passed", []))
    except Exception as e: return f"tests gave no result: {e} " + r.stdout[-300:]
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    missing = [x for x in base if x not in passed]
    r = sh(f"bash {d}/demo.sh", slot)
    git("checkout", "-q", "--", ".")
    if missing: return f"tests fail: {missing[:4]}"
    if r.returncode == 0: return "demo passes with the patch: " + r.stdout[-300:]
    if r.returncode in (3, 124): return f"demo broken with the patch rc={r.returncode} " + r.stdout[-300:]
    dst = f"{VERIF}/seeded/{s['id']}"
    shutil.rmtree(dst, ignore_errors=True); os.makedirs(dst)
    for f in os.listdir(d):
        if f != "out.json": shutil.copy(f"{d}/{f}", dst)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(dst + "/meta.json", "w"), indent=1)
    return "KEPT  (" + r.stdout.strip()[-110:].replace("\n", " | ") + ")"

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("file"); ap.add_argument("-j", type=int, default=4); ap.add_argument("-k", default="")
    a = ap.parse_args()
    spec = importlib.util.spec_from_file_location("seeds", a.file); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    q = queue.Queue()
    for s in m.SEEDS:
        if a.k in s["id"]: q.put(s)
    def work(i):
        slot = f"/tmp/seedslot{i}"
        subprocess.run(["rm", "-rf", slot]); subprocess.run(["cp", "-a", "/repo", slot], check=True)
        while True:
            try: s = q.get_nowait()
            except queue.Empty: break
            try: r = one(s, slot)
            except Exception as e: r = f"error {e!r}"
            print(f"{s['id']:28} {r}", flush=True)
        subprocess.run(["rm", "-rf", slot])
    ts = [threading.Thread(target=work, args=(i,)) for i in range(min(a.j, q.qsize()))]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
