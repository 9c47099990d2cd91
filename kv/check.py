"""Obligation runner: decides the properties from the dump of /repo's current source.

An obligation derives, by abstract interpretation of the type-checked MIR, the closed form of what a
function returns, and compares its normal form with a specification written independently of the code.
  held       the normal forms are equal
  violated   the closed forms are different functions (they differ at a point of their domain)
  undecided  the analysis could not derive or compare a closed form; never an alarm
"""
import argparse
import hashlib
import json
import os
import resource
import signal
import sys
import time
import traceback
from fractions import Fraction

sys.setrecursionlimit(20000)

from . import dump as D
from . import term as T
from . import val as V
from . import ev as E
from . import interp
from . import prove as R
from .val import INF
from .models import Stream, as_seq, is_iter

REG = {}
BUDGET = 60
TOTAL = {"quick": 600, "thorough": 7200}      # processor time after which the remaining obligations are left undecided
MEMORY = 10 << 30


class Bad(Exception):
    """a decided violation"""

    def __init__(self, what, where=None, **detail):
        Exception.__init__(self, what)
        self.where = where
        self.detail = detail


class Missing(T.Undecided):
    pass


# applications the point evaluator interprets, or whose values really are free (inputs, permutations)
RIGID = {"dft_re", "dft_im", "rfft_re", "rfft_im", "irfft", "perm", "bit", "bitand", "popcount", "is_pow2", "ftrunc", "fract", "round", "powi", "seqmax",
         "seqmin", "f32", "rs_ecc", "rs_ok", "rs_fix"}


def uninterpreted(*xs):
    out = set()
    for x in xs:
        if not isinstance(x, T.Poly) and T.opaques(x):
            out.add("opaque")
        for A in map(T.ATOMS.__getitem__, T.atoms_rec(x)):
            if A.kind == "app":
                n = A.args[0]
                if n not in RIGID and not n.startswith("float:") and n not in FREE:
                    out.add(n)
            elif A.kind == "opaque":
                out.add("opaque")
    return out


FREE = set()


def decoding(x):
    """mentions whether, or into what, a Reed-Solomon frame decodes (unconstrained applications of their arguments)"""
    return any(A.kind == "app" and A.args[0] in ("rs_ok", "rs_fix") for A in map(T.ATOMS.__getitem__, T.atoms_rec(x)))


# constructs the abstract interpreter has no rule for surface as these
NORULE = (RecursionError, AttributeError, KeyError, TypeError, IndexError, AssertionError, ValueError, ZeroDivisionError, OverflowError,
          NameError, NotImplementedError)
CLOSED = 30


class Prefix:
    """the first items of an endless stream whose closed form was not derived"""

    def __init__(self, xs):
        self.xs = xs

    def at(self, k):
        if isinstance(k, T.Poly) and k.is_const() and k.cval() < len(self.xs):
            return self.xs[int(k.cval())]
        raise T.Undecided("no closed form")

    def length(self):
        return INF


class hard:
    """give up on work that does not pass a budget check, after `sec` seconds of processor time"""

    def __init__(self, sec):
        self.sec = sec

    def fire(self, *a):
        raise T.Undecided("analysis budget exhausted")

    def __enter__(self):
        self.old = signal.signal(signal.SIGVTALRM, self.fire)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.sec, 1)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)


class Prop:
    def __init__(self, pid, fn, floor):
        self.pid = pid
        self.fn = fn
        self.floor = floor


def prop(pid, floor=1):
    def deco(fn):
        REG.setdefault(pid, []).append(Prop(pid, fn, floor))
        return fn
    return deco


class C:
    """context of one property run"""

    def __init__(self, pid, tier, d):
        self.pid = pid
        self.tier = tier
        self.d = d
        self.results = []
        self.called = set()
        self.entries = set()
        self.panics = []
        self.points = 0
        self.only = None
        self.runs = []
        self.rejects = False      # the property is about which calls panic
        self.verbose = False

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ---------------------------------------------------------- running the analysis
    def interp(self):
        return interp.Interp(self.d)

    def has(self, path):
        return path in self.d.by_path

    def call(self, path, args, targs=None, I=None, st=None):
        """-> (value, state, interp)"""
        I = I or self.interp()
        if path not in self.d.by_path:
            raise Missing("no function %s in the crate" % path)
        self.entries.add(path)
        if I not in self.runs:
            self.runs.append(I)
        try:
            v, st = I.call(path, args, targs, st)
        finally:
            self.called |= I.called
        return v, st, I

    def stream(self, path, args, targs=None):
        """the sequence a stream function yields: its closed form, or, where none is derived, its items one by one
        for an input of literal length"""
        try:
            with T.deadline(CLOSED):
                v, st, I = self.call(path, args, targs)
                return self.seq(v, st, I)
        except interp.Diverge:
            raise Bad("%s panics on every path" % path, path)
        except (T.Undecided,) + NORULE as e:
            if isinstance(e, Missing):
                raise
            s = self.drive(path, args, targs)
            if s is None:
                raise
            return s

    def drive(self, path, args, targs=None, limit=700, first=24, chosen=None):
        """interpret the stage output by output over a tape of symbolic items: -> its items, or the first of them
        if the input is endless; None if the input's length is symbolic"""
        from .demand import Demand, Endless
        ts = [i for i, a in enumerate(args) if isinstance(a, Stream) and isinstance(a.pos, T.Poly) and a.pos.is_zero()]
        if len(ts) != 1:
            return None
        seq = args[ts[0]].seq
        L = seq.length()
        if L is not INF and not L.is_const():
            return None
        D = Demand()
        D.values = True
        I = self.interp()
        I.demand = D
        I.chosen = chosen
        args = list(args)
        args[ts[0]] = D.tape(lambda p: seq.at(p), None if L is INF else int(L.cval()))
        out = []
        try:
            v, st, _ = self.call(path, args, targs, I=I)
            while True:
                x, v = D.pull(I, st, v)
                if not D.some(x):
                    break
                x = x.fields(1)[0]
                while isinstance(x, V.Ref):
                    x = I.read(st, x)
                out.append(x)
                if L is INF and len(out) >= first:
                    return Prefix(out)
                if len(out) > limit:
                    raise T.Undecided("more than %d items" % limit)
        except interp.Diverge:
            raise Bad("%s panics on a valid configuration" % path, path)
        except Endless as e:
            raise T.Undecided(str(e))
        finally:
            self.called |= I.called
        return V.lit(out)

    def value(self, path, args, targs=None):
        try:
            v, st, I = self.call(path, args, targs)
        except interp.Diverge:
            raise Bad("%s panics on every path" % path, path)
        return deref(I, st, v)

    def seq(self, v, st, I):
        try:
            if isinstance(v, V.Ref):
                v = I.read(st, v)
            if V.is_seq(v):
                return v
            return as_seq(I, st, v)
        finally:
            self.called |= I.called

    # ---------------------------------------------------------- obligations
    def ob(self, name, where, fn, sec=BUDGET):
        """run one obligation; fn returns None (held) or raises Bad / Undecided"""
        if self.only and self.only not in name:
            return
        t = time.time()
        self.runs = []
        rec = {"obligation": name, "where": where}
        try:
            left = TOTAL[self.tier] - time.process_time()
            if left < 1:
                raise T.Undecided("the time of this run is used up")
            with T.deadline(min(sec, left)), hard(min(sec, left) + 5):
                r = fn()
            rec["verdict"] = "held"
            if r:
                rec["form"] = str(r)[:200]
        except Bad as e:
            rec["verdict"] = "violated"
            rec["what"] = str(e)
            rec["where"] = e.where or where
            rec.update({k: str(v)[:600] for k, v in e.detail.items()})
        except T.Undecided as e:
            rec["verdict"] = "undecided"
            rec["why"] = str(e)[:200]
        except MemoryError:
            rec["verdict"] = "undecided"
            rec["why"] = "memory budget exhausted"
        except NORULE + (interp.Diverge,) as e:
            # a construct the abstract interpreter has no rule for
            rec["verdict"] = "undecided"
            rec["why"] = "no rule: %s %s" % (type(e).__name__, str(e)[:120])
            if self.verbose:
                traceback.print_exc()
        rec["s"] = round(time.time() - t, 2)
        if rec["verdict"] != "violated" and not self.rejects:
            p = self.panicking()
            if p:
                rec.update(verdict="violated", what="panics on some inputs of a valid configuration", where=p[0],
                           got=p[1], want="no panic", witness=p[2])
        self.results.append(rec)
        if self.verbose:
            print("  [%s] %s  %ss %s" % (rec["verdict"], name, rec["s"], (rec.get("why") or rec.get("what") or rec.get("form") or "")[:240]))
            if rec["verdict"] == "violated":
                print("        got ", rec.get("got", "")[:400])
                print("        want", rec.get("want", "")[:400])
                print("        wit ", rec.get("witness", "")[:300])
        return rec["verdict"]

    def panicking(self):
        """a panic of the last runs that is reached for some values of the input items alone (fixed configuration,
        no loop invariant involved) -> (where, condition, witness) or None"""
        for I in self.runs:
            for pc, cond, w, sp, txt in I.panics[:200]:
                try:
                    g = cond
                    for q in pc:
                        g = g * q
                    if g.is_zero() or g.fv() or uninterpreted(g) or decoding(g):
                        continue
                    g = T.renorm(g)
                    if g.is_zero():
                        continue
                    e = E.point(g)
                except (T.Undecided,) + NORULE:
                    continue
                if e is not None:
                    return "%s (%s)" % (w, ":".join(map(str, sp[:2])) if sp else txt), g, witness((e.seed, 1, 0, {
                        k if isinstance(k, str) else "%s[%s]" % (k[1], ",".join(map(str, k[2]))): v
                        for k, v in e.env.items() if isinstance(k, str) or k[0] == "at"}))
        return None

    # ---------------------------------------------------------- comparing
    def same(self, got, want, hyps=(), what="", where=None, env=None):
        """got and want (scalars or structured values) denote the same function of the inputs"""
        for lab, a, b in pairs(got, want, ""):
            if isinstance(a, str) or isinstance(b, str):
                raise Bad("%s%s: shape differs" % (what, lab), where, got=a, want=b)
            if a is b or (a - b).is_zero():
                continue
            a, b = R.expand(a), R.expand(b)
            if (a - b).is_zero() or R.bitwise(a - b).is_zero():
                continue
            with T.assume(*[h for h in hyps if not isinstance(h, bool)]):
                df = T.renorm(a - b)
                if df.is_zero() or R.zero(df):
                    continue
            un = uninterpreted(df)
            if un:
                raise T.Undecided("not comparable: result depends on %s" % sorted(un)[:4])
            if decoding(a) and not decoding(b):
                raise T.Undecided("not comparable: result depends on a frame's decodability")
            f = common_transform(a, b)
            if f is not None:
                # multiples of the same transform of the input: the factors decide
                w, n = E.differ(f[0], f[1], hyps, points=24, env=env)
            else:
                w, n = E.differ(a, b, hyps, points=24, env=env)
            self.points += n
            if w is None:
                raise T.Undecided("closed forms not identical but no differing point among %d%s" % (n, lab))
            raise Bad("%s%s: derived result differs from the specification" % (what, lab), where,
                      got=a, want=b, witness=witness(w))

    def items(self, got, want, length=INF, hyps=(), what="", where=None, split=None, env=None, mk=None):
        """got: sequence; want(n): its specified item n; length: specified length (INF or poly)"""
        L = got.length()
        if isinstance(got, Prefix):
            for i, x in enumerate(got.xs):
                self.same(x, want(T.const(i)), hyps, "%s item %d" % (what, i), where, env)
            raise T.Undecided("no closed form; the first %d items are as specified" % len(got.xs))
        if (L is INF) != (length is INF):
            if L is INF or T.is_int(L):
                self.badlen(L, length, what, where)
        if L is not INF:
            if not (L - length).is_zero():
                un = uninterpreted(L - length)
                if un:
                    raise T.Undecided("length depends on %s" % sorted(un)[:4])
                w, n = E.differ(L, length, hyps, points=24, env=env)
                self.points += n
                if w is None:
                    raise T.Undecided("lengths not identical but no differing point among %d" % n)
                raise Bad("%s: yields a different number of items than specified" % what, where, got=L, want=length,
                          witness=witness(w))
            if L.is_const() and L.cval() <= 256:
                for i in range(int(L.cval())):
                    k = T.const(i)
                    self.same(got.at(k), want(k), hyps, "%s item %d" % (what, i), where, env)
                return
        if split:
            for q, r in split:
                n = q * T.fresh("p") + r
                self.same(got.at(n), want(n), hyps, "%s item n" % what, where, env)
        else:
            n = mk() if mk else T.fresh("n", lo=0, hi=None if L is INF else L - 1)
            self.same(got.at(n), want(n), hyps, "%s item n" % what, where, env)

    def badlen(self, L, length, what, where):
        raise Bad("%s: stream length differs" % what, where, got="unbounded" if L is INF else L,
                  want="unbounded" if length is INF else length)


def common_transform(a, b):
    """the factors of the one transform atom both are multiples of, or None"""
    def split(p):
        at = [i for i in p.atoms() if T.ATOMS[i].kind == "app" and T.ATOMS[i].args[0] in TRANSFORMS]
        if len(at) != 1:
            return None
        q = T.ZERO
        for m, c in p.t.items():
            if (at[0], 1) not in m:
                return None
            q = q + T.mkpoly({tuple(x for x in m if x[0] != at[0]): c})
        return at[0], q
    x, y = split(a), split(b)
    if x is None or y is None or x[0] != y[0]:
        return None
    A = T.ATOMS[x[0]]
    if not any(T.ATOMS[i].kind == "elem" for s in A.args if hasattr(s, "kids") for k in s.kids() for i in T.atoms_rec(k)):
        return None
    if any(x[0] in T.atoms_rec(q) for q in (x[1], y[1])):
        return None
    return x[1], y[1]


TRANSFORMS = ("dft_re", "dft_im", "rfft_re", "rfft_im", "irfft")


def witness(w):
    s, x, y, env = w
    return "at point #%d: derived %.9g, specified %.9g; %s" % (s, x, y, ", ".join(
        "%s=%s" % (k, str(v)[:24]) for k, v in sorted(env.items(), key=lambda kv: str(kv[0]))[:12]))


def deref(I, st, v):
    for _ in range(8):
        if isinstance(v, V.Ref):
            v = I.read(st, v)
        else:
            break
    if isinstance(v, V.Agg):
        return v
    return v


def pairs(a, b, lab):
    if isinstance(b, (int, float)) and not isinstance(b, bool):
        b = T.const(b)
    if isinstance(a, T.Poly) and isinstance(b, T.Poly):
        yield lab, a, b
        return
    if isinstance(a, V.Opaque) or isinstance(b, V.Opaque):
        raise T.Undecided("opaque value %s" % (a,))
    if isinstance(a, V.Agg) and isinstance(b, V.Agg):
        if len(a.fields) != len(b.fields):
            yield lab, "%d fields" % len(a.fields), "%d fields" % len(b.fields)
            return
        for i, (x, y) in enumerate(zip(a.fields, b.fields)):
            yield from pairs(x, y, "%s.%d" % (lab, i))
        return
    if V.is_seq(a) and isinstance(b, (list, tuple)):
        b = V.lit(list(b))
    if V.is_seq(a) and V.is_seq(b):
        la, lb = a.length(), b.length()
        if la is INF or lb is INF:
            if la is not lb:
                yield lab + ".len", "inf" if la is INF else str(la), "inf" if lb is INF else str(lb)
                return
            n = T.fresh("n", lo=0)
            yield from pairs(a.at(n), b.at(n), lab + "[n]")
            return
        if not (la - lb).is_zero():
            yield lab + ".len", la, lb
            if not (la.is_const() and lb.is_const()):
                return
            return
        if la.is_const() and la.cval() <= 256:
            for i in range(int(la.cval())):
                k = T.const(i)
                yield from pairs(a.at(k), b.at(k), "%s[%d]" % (lab, i))
            return
        n = T.fresh("n", lo=0, hi=la - 1)
        yield from pairs(a.at(n), b.at(n), lab + "[n]")
        return
    if isinstance(a, V.Enum) and isinstance(b, V.Enum):
        if a == b:
            return
        raise T.Undecided("enum comparison %s / %s" % (a, b))
    raise T.Undecided("cannot compare %s with %s" % (type(a).__name__, type(b).__name__))


# ------------------------------------------------------------------ inputs
def src(name, n=INF, **kw):
    """a stream of n free items"""
    return Stream(V.gen(n, lambda i: T.elem(name, i, **kw)))


def arr(name, n, **kw):
    return V.lit([T.elem(name, T.const(i), **kw) for i in range(n)])


def bits(n=INF, name="b"):
    return src(name, n, isbool=True)


def csrc(n=INF, re="re", im="im"):
    return Stream(V.gen(n, lambda i: V.cplx(T.elem(re, i), T.elem(im, i))))


def B(i, name="b"):
    return T.elem(name, T.P(i), isbool=True)


def X(i, name="x"):
    return T.elem(name, T.P(i))


def real(name, **kw):
    return T.var(name, isint=False, **kw)


def nat(name, lo=0, **kw):
    return T.var(name, lo=lo, **kw)


K = T.const


# ------------------------------------------------------------------ known findings
def known():
    out = []
    p = os.path.join(D.VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("{"):
                r = json.loads(ln)
                if "finding" in r:
                    out.append(r["finding"])
    return out


def run_property(pid, tier, only=None, verbose=False, dump=None):
    t0 = time.time()
    from . import props  # noqa: F401  (registers)
    path, dg = dump or D.dump_path()
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
    d = load(path)
    c = C(pid, tier, d)
    c.only = only
    c.verbose = verbose
    floor = 0
    for p in REG[pid]:
        p.fn(c)
        floor = max(floor, p.floor)
    return c, floor, dg, time.time() - t0


_dumps = {}


def load(path):
    if path not in _dumps:
        _dumps[path] = interp.Dump(path)
    return _dumps[path]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.property
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        c, floor, dg, wall = run_property(pid, tier, a.only, a.v)
    except D.BuildError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e))
        return 2
    held = [r for r in c.results if r["verdict"] == "held"]
    und = [r for r in c.results if r["verdict"] == "undecided"]
    bad = [r for r in c.results if r["verdict"] == "violated"]
    kn = [k for k in known() if k["property"] == pid]
    kids = {(k["obligation"], k["where"]): k for k in kn}
    fresh = []
    shown = set()
    for r in bad:
        k = kids.get((r["obligation"], r["where"]))
        # a finding names the failing obligation, its function and the result derived there: another result is new
        if k is not None and (k.get("got") is None or k["got"] == r.get("got")):
            r["verdict"] = "known-finding"
            if k["id"] not in shown:
                shown.add(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            fresh.append(r)
    fns = sorted(c.called)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": ("Closed forms of the listed functions' results were derived from the type-checked MIR of "
                            "/repo's current source (dump %s) by abstract interpretation with inductive stream "
                            "invariants, and their normal forms compared with the specification of each obligation; "
                            "nothing of /repo is executed.  An obligation is discharged when the normal forms are "
                            "identical, violated when the two closed forms are different functions, undecided when no "
                            "closed form was derived." % dg) if not getattr(c, "explain", None) else c.explain,
            "obligations": len(c.results),
            "discharged": len(held),
            "undecided": len(und),
            "violated": len(bad),
            "functions_analysed": [str(x) for x in fns][:200],
            "functions_analysed_count": len(fns),
            "entry_points": sorted(c.entries),
            "results": c.results[:400],
            "trusted_base": ["rustc 1.101 nightly MIR construction", "models of std/num-complex/rustfft/itertools callees in /verif/kv/models.py",
                             "real-number arithmetic for f64", "normaliser /verif/kv/term.py"],
        },
        "assumptions": ["f64 arithmetic is treated as exact real arithmetic",
                        "usize arithmetic does not overflow for the analysed configurations"],
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    if getattr(c, "extra", None):
        ev["coverage"].update(c.extra)
    os.makedirs(os.path.join(D.VERIF, "evidence"), exist_ok=True)
    if not a.only:
        with open(os.path.join(D.VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    rc = 0
    for r in fresh:
        rp = os.path.join(D.WORK, "replay")
        os.makedirs(rp, exist_ok=True)
        key = hashlib.sha256((pid + r["obligation"] + str(r["where"])).encode()).hexdigest()[:12]
        fn = os.path.join(rp, "%s-%s.json" % (pid, key))
        with open(fn, "w") as f:
            json.dump(r, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, fn))
        print("  in %s: %s: %s" % (r["where"], r["obligation"], r["what"]))
        for k in ("got", "want", "witness"):
            if k in r:
                print("    %-8s %s" % (k, r[k][:300]))
        rc = 1
    print("%s %s: %d obligations, %d held, %d undecided, %d violated (%d listed); %d functions analysed; %.1fs"
          % (pid, tier, len(c.results), len(held), len(und), len(bad), len(bad) - len(fresh), len(fns), wall))
    for r in und:
        print("  undecided: %s: %s" % (r["obligation"], r["why"][:160]))
    return rc


if __name__ == "__main__":
    # run under the module name the property files import, so that there is one registry
    from kv import check as _c
    sys.exit(_c.main())
