"""Build the MIR dumper and run it over /repo's current working tree."""
import fcntl
import hashlib
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KV_REPO", "/repo")
WORK = os.environ.get("KV_WORK", os.path.join(VERIF, ".work"))


class BuildError(Exception):
    pass


def env():
    """the environment /opt/vp/build.sh builds under, with the nightly toolchain"""
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             RUSTUP_TOOLCHAIN="nightly", PYO3_PYTHON="/usr/bin/python3.12",
             CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="true",
             CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
             PYTHONDONTWRITEBYTECODE="1")
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def run(cmd, what, cwd, e):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s failed:\n%s" % (what, r.stdout[-4000:]))
    return r.stdout


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in (".git", "target", "__pycache__")]
        for f in files:
            if f.endswith(".rs") or f in ("Cargo.toml", "Cargo.lock"):
                out.append(os.path.join(root, f))
    return out


def driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    out = os.path.join(WORK, "kdump-" + digest([src]))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        run(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", tmp], "building the MIR dumper", VERIF, env())
        os.rename(tmp, out)
    return out


def dump_path():
    """-> (path of the dump of the current tree, digest)"""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        dg = digest(sources() + [os.path.join(VERIF, "driver", "main.rs")])
        out = os.path.join(WORK, "dump-%s.json" % dg)
        if os.path.exists(out):
            return out, dg
        for f in os.listdir(WORK):
            if f.startswith("dump-"):
                os.unlink(os.path.join(WORK, f))
        e = env()
        root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=e, stdout=subprocess.PIPE, text=True).stdout.strip()
        e["LD_LIBRARY_PATH"] = root + "/lib" + (":" + e["LD_LIBRARY_PATH"] if e.get("LD_LIBRARY_PATH") else "")
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["KDUMP_CRATE"] = "komunikilo"
        tmp = out + ".tmp"
        e["KDUMP_OUT"] = tmp
        tgt = os.path.join(WORK, "target")
        if os.path.exists(tmp):
            os.unlink(tmp)
        # /repo/Cargo.lock is not tracked; never let this run change it when it exists
        lockf = os.path.join(REPO, "Cargo.lock")
        cmd = ["cargo", "check", "--lib", "--offline", "--target-dir", tgt, "--manifest-path", os.path.join(REPO, "Cargo.toml")]
        if os.path.exists(lockf):
            cmd.append("--locked")
        run(cmd, "compiling /repo", REPO, e)
        if not os.path.exists(tmp):
            # an earlier run was cut short after cargo had recorded its result
            run(["cargo", "clean", "-p", "komunikilo"] + cmd[3:], "cleaning", REPO, e)
            run(cmd, "compiling /repo", REPO, e)
        if not os.path.exists(tmp):
            raise BuildError("the dumper wrote nothing")
        os.rename(tmp, out)
        return out, dg


if __name__ == "__main__":
    t = time.time()
    print(dump_path(), "%.1fs" % (time.time() - t))
