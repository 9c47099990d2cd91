"""Numeric valuation of closed-form terms.

Used only to confirm that two different normal forms denote different functions (so that an incomplete
normaliser never raises an alarm).  It evaluates the terms derived from the source, not the program."""
import cmath
import hashlib
import math
from fractions import Fraction
from . import term as T
from . import val as V
from .term import Poly
from .val import Seq, INF, Str, Agg


import os
import sys

MPPATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    sys.path.append(MPPATH)
    import mpmath as MP
    MP.mp.dps = 60
except ImportError:
    MP = None
finally:
    sys.path.remove(MPPATH)


def isf(x):
    return isinstance(x, float) or (MP is not None and isinstance(x, MP.mpf))


def like(f, x):
    """the rational x as an inexact number of f's kind"""
    if isinstance(f, float):
        return float(x)
    return MP.mpf(x.numerator) / x.denominator


def mix(x, y):
    """two numbers of kinds that may be combined"""
    if isf(x) and not isf(y):
        return x, like(x, Fraction(y))
    if isf(y) and not isf(x):
        return like(y, Fraction(x)), y
    return x, y


class Ambiguous(Exception):
    """a comparison too close to call in floating point, or a value outside the domain"""


def h64(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), "big")


def num(x):
    """canonical form of a number for hashing"""
    if isinstance(x, Fraction):
        if x.denominator == 1:
            return int(x)
        x = float(x)
    if isf(x):
        x = float(x)
        if x == int(x) if math.isfinite(x) else False:
            return int(x)
        return float("%.9g" % x)
    return x


BIG = [255, 256, 257, 65535, 65536, 65537, 70001, 1 << 20 | 1, 1 << 24 | 1, 1 << 24 | 3, 1 << 31, 1 << 32 | 1, 1 << 32 | 5]
SCALES = [Fraction(1, 10 ** 3), Fraction(1, 10 ** 5), Fraction(1, 10 ** 7), Fraction(10 ** 3), Fraction(10 ** 6)]
EXTREMES = [Fraction(1, 10 ** 12), Fraction(1, 10 ** 40), Fraction(10 ** 12)]
SPECIAL = [Fraction(x) for x in (0, 1, -1, 2, -2, 0, 1000, -1000)] + [Fraction(1, 2), Fraction(-1, 2), Fraction(1, 4)]


class Ev:
    def __init__(self, seed, env=None, real=None):
        self.seed = seed
        self.env = dict(env or {})     # var name -> number
        self.bound = {}
        self.memo = {}
        self.budget = 400000
        self.span = 6                  # integers are drawn from this many values above their lower bound
        self.special = False           # reals are drawn from a few exact values
        self.big = False               # integers are drawn around the widths of machine types
        self.cap = self.budget
        self.lengthy = False
        self.long = 0                  # how many sums of up to 70100 terms may be evaluated
        self.exact = False             # rationals exactly, everything else with 60 digits
        self.scale = None              # magnitude of about half of the free reals
        self.uniform = False           # ... or of all of them

    def draw(self, x):
        return Fraction(x) if self.exact else x

    def inexact(self, x):
        """x as a floating-point number"""
        if not self.exact:
            return float(x)
        return x if isf(x) and not isinstance(x, float) else MP.mpf(x.numerator) / x.denominator if isinstance(x, Fraction) else MP.mpf(x)

    @property
    def lib(self):
        return MP if self.exact else math

    def var(self, A):
        n = A.args[0]
        if A.id in self.bound:
            return self.bound[A.id]
        if n in self.env:
            return self.env[n]
        lo, hi = T.BOUNDS.get(A.id, (None, None))
        r = h64("v", self.seed, n.split("#")[0])
        if A.isbool:
            x = Fraction(r & 1)
        elif A.isint:
            l = self.ev(lo) if lo is not None else (0 if A.nonneg else -3)
            u = self.ev(hi) if hi is not None else l + self.span
            if u < l:
                raise Ambiguous("empty range")
            if self.big and hi is None and h64("b", r) % 4:
                u = l = Fraction(max(int(l), BIG[(r >> 8) % len(BIG)]))
            x = Fraction(int(l) + r % (int(u) - int(l) + 1))
        elif self.special:
            x = SPECIAL[r % len(SPECIAL)]
            x = abs(x) if A.nonneg else x
        else:
            x = (r >> 11) / 2.0 ** 53
            x = self.sized(self.draw(0.05 + 0.9 * x if A.nonneg else 2 * x - 1), n)
        self.env[n] = x
        return x

    def ev(self, p):
        self.budget -= 1
        if self.budget < 0:
            raise Ambiguous("budget")
        if not self.bound and p in self.memo:
            return self.memo[p]
        tot = Fraction(0)
        for m, c in p.t.items():
            v = c
            for a, e in m:
                A = T.ATOMS[a]
                x = self.atom(A)
                if isinstance(x, (int, Fraction)) and x == 0 and e > 0:
                    v = Fraction(0)
                    break
                if e < 0 and x == 0:
                    raise Ambiguous("division by zero")
                if isinstance(x, int):
                    x = Fraction(x)
                if isf(x) and isinstance(v, Fraction):
                    v = like(x, v)
                if isf(v) and isinstance(x, Fraction):
                    x = like(v, x)
                try:
                    v = v * x ** e
                except (OverflowError, ZeroDivisionError):
                    raise Ambiguous("overflow")
            if isf(tot) and isinstance(v, Fraction):
                v = like(tot, v)
            elif isf(v) and isinstance(tot, Fraction):
                tot = like(v, tot)
            tot = tot + v
        if isf(tot) and not (MP.isfinite(tot) if self.exact else math.isfinite(tot)):
            raise Ambiguous("non-finite")
        if not self.bound:
            self.memo[p] = tot
        return tot

    def val(self, x):
        """a hashable rendering of any argument"""
        if isinstance(x, Poly):
            return num(self.ev(x))
        if isinstance(x, Seq):
            n = x.length()
            if n is INF:
                k = 4
            else:
                k = int(self.ev(n))
            if k > 300:
                raise Ambiguous("long sequence")
            return ("seq", None if n is INF else k, tuple(self.val(self.item(x, i)) for i in range(k)))
        if isinstance(x, Str):
            return str(x)
        if isinstance(x, V.Stream):
            s = x.seq
            p = int(self.ev(x.pos))
            n = s.length()
            k = 4 if n is INF else max(0, int(self.ev(n)) - p)
            return ("seq", None if n is INF else k, tuple(self.val(self.item(s, p + i)) for i in range(min(k, 40))))
        if isinstance(x, V.Enum):
            for i, g, f in x.vs:
                if self.ev(g) == 1:
                    return ("enum", x.adt, i, tuple(self.val(y) for y in f))
            raise Ambiguous("no variant")
        if isinstance(x, V.Val):
            return (type(x).__name__, str(getattr(x, "name", "")), tuple(self.val(k) for k in x.kids()))
        if isinstance(x, tuple):
            return tuple(self.val(y) for y in x)
        return str(x)

    def item(self, seq, i):
        return seq.at(T.const(i))

    def hashed(self, A, *key):
        r = h64(self.seed, *key)
        if A.isbool:
            return Fraction(r & 1)
        if A.isint:
            lo, hi = T.BOUNDS.get(A.id, (None, None))
            l = int(self.ev(lo)) if lo is not None else 0
            u = int(self.ev(hi)) if hi is not None else l + 255
            return Fraction(l + r % (max(u - l, 0) + 1))
        if self.special and key[0] == "elem":
            x = SPECIAL[r % len(SPECIAL)]
            return abs(x) if A.nonneg else x
        x = (r >> 11) / 2.0 ** 53
        return self.sized(self.draw(0.1 + 0.8 * x if A.nonneg else (0.1 + 0.8 * x) * (1 if r & 1 else -1)), key)

    def sized(self, x, key):
        if self.scale is None or not self.uniform and h64("s", self.seed, key) & 1:
            return x
        return x * (self.scale if isinstance(x, Fraction) else float(self.scale))

    def atom(self, A):
        k = A.kind
        if k == "var":
            return self.var(A)
        if not self.bound:
            r = self.memo.get(("a", A.id))
            if r is not None:
                return r
        r = self._atom(A)
        if not self.bound:
            self.memo[("a", A.id)] = r
        return r

    def _atom(self, A):
        k = A.kind
        a = A.args
        ev = self.ev
        if k == "pi":
            return +MP.pi if self.exact else math.pi
        if k == "elem":
            if isinstance(a[0], Poly) or not isinstance(a[0], (str, tuple)):
                pass
            f = self.env.get(("elem", a[0]))
            ix = tuple(num(ev(i)) for i in a[1:])
            o = self.env.get(("at", str(a[0]), ix))
            if o is not None:
                return o
            if f is not None:
                return f(*ix)
            return self.hashed(A, "elem", str(a[0]), ix)
        if k == "ge":
            x = ev(a[0])
            x, y = mix(x, Fraction(a[1]))
            return Fraction(self.cmp(x - y) >= 0)
        if k == "eq":
            x = ev(a[0])
            return Fraction(self.cmp(x, True) == 0)
        if k == "pos":
            return Fraction(self.cmp(ev(a[0])) > 0)
        try:
            lib, fl = self.lib, self.inexact
            if k == "cos":
                return lib.cos(fl(ev(a[0])))
            if k == "sin":
                return lib.sin(fl(ev(a[0])))
            if k == "sqrt":
                x = ev(a[0])
                if x < -1e-9:
                    raise Ambiguous("sqrt")
                return lib.sqrt(fl(max(x, 0)))
            if k == "expf":
                return lib.exp(fl(ev(a[0])))
            if k in ("ln", "log10"):
                x = ev(a[0])
                if x <= 0:
                    raise Ambiguous("domain")
                return (lib.log if k == "ln" else lib.log10)(fl(x))
            if k == "powf":
                x, y = ev(a[0]), ev(a[1])
                if x < 0:
                    raise Ambiguous("pow")
                return fl(x) ** fl(y)
            if k == "inv":
                x = ev(a[0])
                return 1 / x if x else self.bad()
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Ambiguous("domain")
        if k == "absv":
            return abs(ev(a[0]))
        if k == "idiv":
            x, y = mix(ev(a[0]), ev(a[1]))
            if y == 0:
                raise Ambiguous("division by zero")
            return Fraction(self.floor(x / y))
        if k in ("trunc",):
            return Fraction(int(self.near(ev(a[0]))))
        if k == "floor":
            return Fraction(self.floor(ev(a[0])))
        if k == "ftrunc":
            return Fraction(int(self.near(ev(a[0]))))
        if k == "wrap":
            x, bits, signed = a
            x = int(self.near(ev(x)))
            m = 1 << int(bits)
            x %= m
            if signed and x >= m // 2:
                x -= m
            return Fraction(x)
        if k == "f32":
            import struct
            return struct.unpack("f", struct.pack("f", float(ev(a[0]))))[0]
        if k == "sum":
            n, bv, body = a
            n = int(ev(n))
            if n > 400:
                if not self.long or n > 200100:
                    raise Ambiguous("long sum")
                self.long -= 1
            tot = Fraction(0)
            save = self.bound.get(bv)
            for i in range(n):
                self.bound[bv] = Fraction(i)
                v = ev(body)
                if isf(v) and not isf(tot):
                    tot = like(v, tot)
                elif isf(tot) and not isf(v):
                    v = like(tot, v)
                tot = tot + v
            if save is None:
                self.bound.pop(bv, None)
            else:
                self.bound[bv] = save
            return tot
        if k == "iter":
            bv, body, init, kk = a
            x = ev(init)
            n = int(ev(kk))
            if n > 200:
                raise Ambiguous("long iteration")
            save = self.bound.get(bv)
            for i in range(n):
                if isinstance(x, Fraction) and x.denominator.bit_length() > 400:
                    x = self.inexact(x)
                self.bound[bv] = x
                x = ev(body)
            if save is None:
                self.bound.pop(bv, None)
            else:
                self.bound[bv] = save
            return x
        if k == "opaque":
            raise Ambiguous("unknown value: %s" % (a[0],))
        if k == "app":
            return self.app(A)
        return self.hashed(A, k, tuple(self.val(x) for x in a))

    def bad(self):
        raise Ambiguous("division by zero")

    def cmp(self, x, eq=False):
        if isf(x):
            if abs(x) < (1e-30 if self.exact else 1e-9):
                if eq:
                    return 0
                raise Ambiguous("comparison too close")
        return (x > 0) - (x < 0)

    def near(self, x):
        if isf(x):
            r = int(MP.nint(x)) if self.exact else round(x)
            if abs(x - r) < 1e-9:
                return r
        return x

    def floor(self, x):
        x = self.near(x)
        return int(MP.floor(x)) if isf(x) and self.exact else math.floor(x)

    def cseq(self, s):
        n = int(self.ev(s.length()))
        out = []
        for i in range(n):
            v = self.item(s, i)
            f = v.fields if isinstance(v, Agg) else (v,)
            r = [self.inexact(self.ev(x)) for x in f]
            if self.exact:
                out.append(MP.mpc(r[0], r[1] if len(r) > 1 else 0))
            else:
                out.append(complex(*r))
        return out

    def rot(self, num_, den):
        """exp(2 pi i num/den)"""
        if self.exact:
            return MP.expjpi(MP.mpf(2 * (num_ % den)) / den)
        return cmath.exp(2j * math.pi * (num_ % den) / den)

    def app(self, A):
        name = A.args[0]
        a = A.args[1:]
        if name.startswith("float:"):
            return float(name[6:])
        if name in ("dft_re", "dft_im"):
            d, n, s, i = a
            key = ("dft", A.args[2:4], str(d)) if not self.bound else None
            X = self.memo.get(key) if key else None
            if X is None:
                x = self.cseq(s)
                N = len(x)
                sg = -1 if str(d).strip("'\"") == "fwd" else 1
                X = [sum(x[t] * self.rot(sg * t * f, N) for t in range(N)) for f in range(N)]
                if key:
                    self.memo[key] = X
            j = int(self.ev(i))
            if not 0 <= j < len(X):
                raise Ambiguous("index")
            return X[j].real if name == "dft_re" else X[j].imag
        if name in ("rfft_re", "rfft_im"):
            n, s, i = a
            x = self.cseq(s)
            j = int(self.ev(i))
            X = sum(x[t] * self.rot(-t * j, len(x)) for t in range(len(x)))
            return X.real if name == "rfft_re" else X.imag
        if name == "irfft":
            n, s, i = a
            N, j = int(self.ev(n)), int(self.ev(i))
            X = self.cseq(s)
            r = self.inexact(Fraction(0))
            for k in range(N // 2 + 1):
                w = 1 if k == 0 or 2 * k == N else 2
                z = X[k] * self.rot(k * j, N)
                r += w * z.real
            return r
        if name == "perm":
            kind, seed, first, step, n, i = a
            N = int(self.ev(n))
            j = int(self.ev(i))
            key = (self.val(kind), self.val(seed), self.val(first), self.val(step), N)
            order = sorted(range(N), key=lambda t: h64(self.seed, key, t))
            if not 0 <= j < N:
                raise Ambiguous("index")
            return Fraction(order[j])
        if name == "bit":
            return Fraction((int(self.ev(a[0])) >> int(self.ev(a[1]))) & 1)
        if name == "bitand":
            return Fraction(int(self.ev(a[0])) & int(self.ev(a[1])))
        if name == "popcount":
            return Fraction(bin(int(self.ev(a[0]))).count("1"))
        if name == "is_pow2":
            x = int(self.ev(a[0]))
            return Fraction(x > 0 and x & (x - 1) == 0)
        if name in ("ftrunc",):
            return Fraction(int(self.near(self.ev(a[0]))))
        if name == "round":
            x = self.ev(a[0])
            return Fraction(int(self.near(abs(x) + Fraction(1, 2))) * (1 if x >= 0 else -1))
        if name == "fract":
            x = self.ev(a[0])
            return x - int(self.near(x))
        if name == "powi":
            return self.inexact(self.ev(a[0])) ** int(self.ev(a[1]))
        if name == "div0":
            raise Ambiguous("division by zero")
        if name in ("seqmax", "seqmin"):
            v = self.val(a[0])
            return max(v[2]) if name == "seqmax" else min(v[2])
        return self.hashed(A, "app", name, tuple(self.val(x) for x in a))


def named(e):
    return {k if isinstance(k, str) else "%s[%s]" % (k[1], ",".join(map(str, k[2]))): v
            for k, v in e.env.items() if isinstance(k, str) or k[0] == "at"}


def algebraic(x):
    """no transcendental function, so that evaluation loses nothing to large arguments"""
    return not any(A.kind in ("cos", "sin", "expf", "ln", "log10", "powf")
                   or A.kind == "app" and A.args[0] not in ("bit", "bitand", "popcount", "ftrunc", "fract", "round", "perm")
                   for A in map(T.ATOMS.__getitem__, T.atoms_rec(x)))


def differ(a, b, hyps=(), points=24, env=None, rel=1e-7):
    """a point (seed, va, vb) where the two scalars provably take different values, or None.
    -> (witness|None, number of points compared)"""
    n = 0
    if MP is not None and algebraic(a) and algebraic(b):
        rel = 2e-9

    def probe(e):
        nonlocal n
        try:
            if any(e.ev(h) != 1 for h in hyps):
                return None
            x, y = e.ev(a), e.ev(b)
        except Ambiguous:
            return None
        n += 1
        try:
            x, y = float(x), float(y)
        except OverflowError:
            return None
        if abs(x - y) > rel * max(1.0, abs(x), abs(y)):
            # the same point again, exactly or with sixty digits
            if MP is not None:
                f = fresh(e.seed)
                f.span, f.special, f.big, f.scale, f.exact = e.span, e.special, e.big, e.scale, True
                f.long = 64 if e.lengthy else 0
                f.budget = e.cap
                for k, v in e.given.items():
                    f.env[k] = Fraction(v)
                try:
                    if any(f.ev(h) != 1 for h in hyps):
                        return None
                    x, y = mix(f.ev(a), f.ev(b))
                    if abs(x - y) <= rel * max(1, abs(x), abs(y)):
                        return None
                    x, y = float(x), float(y)
                except (Ambiguous, OverflowError):
                    return None
            return e.seed, x, y, named(e)
        return None

    def fresh(s):
        e = Ev(s, env(s) if callable(env) else env)
        e.given = {}
        return e
    for s in range(points * 4):
        w = probe(fresh(s))
        if w:
            return w, n
        if n >= points:
            break
    for s in range(24):
        e = fresh(1000 + s)
        e.span = 40 if s % 2 else 400
        w = probe(e)
        if w:
            return w, n
    for s in range(40):
        e = fresh(4000 + s)
        e.big = True
        e.span = 12
        w = probe(e)
        if w:
            return w, n
    # values next to zero and far from it
    for s in range(30 if MP is not None else 0):
        e = fresh(6000 + s)
        e.scale = SCALES[s % len(SCALES)]
        w = probe(e)
        if w:
            return w, n
    # every real tiny (or, without transcendental functions, huge): compared by relative error, with sixty digits
    for s in range(9 if MP is not None else 0):
        e = fresh(8000 + s)
        e.exact = e.uniform = True
        e.scale = EXTREMES[s % len(EXTREMES)]
        if e.scale > 1 and not (algebraic(a) and algebraic(b)):
            continue
        try:
            if any(e.ev(h) != 1 for h in hyps):
                continue
            x, y = mix(e.ev(a), e.ev(b))
            n += 1
            if abs(x - y) > max(rel, 1e-6) * max(abs(x), abs(y)) and max(abs(x), abs(y)) > 1e-200:
                return (e.seed, float(x), float(y), named(e)), n
        except (Ambiguous, OverflowError):
            continue
    # sums long enough to exceed the narrow machine types
    done = 0
    for s in range(12):
        if not any(T.ATOMS[i].kind == "sum" for x in (a, b) for i in T.atoms_rec(x)):
            break
        e = fresh(5000 + s)
        e.big = True
        e.lengthy, e.long, e.budget, e.cap = True, 64, 4000000, 4000000
        w = probe(e)
        if w:
            return w, n
        done += e.long < 64
        if done >= 3:
            break
    exact = not T.GENERIC
    if exact:
        # nothing was derived under a general-position assumption: look at special values, too
        for s in range(24):
            e = fresh(2000 + s)
            e.special = True
            w = probe(e)
            if w:
                return w, n
    for e in boundary(a, b, fresh, exact):
        w = probe(e)
        if w:
            return w, n
    return None, n


def point(g, tries=48):
    """a point where the condition g holds, or None"""
    for s in range(tries):
        e = Ev(7000 + s)
        e.given = {}
        if s < 3:
            e.lengthy, e.long, e.budget, e.cap = True, 64, 4000000, 4000000
        e.special = s % 3 == 1
        if s % 3 == 2:
            e.span = 400
        try:
            if e.ev(g) == 1:
                return e
        except Ambiguous:
            pass
    return None


def boundary(a, b, fresh, exact, most=240):
    """points at and next to the places where a comparison inside the forms changes its outcome"""
    guards = []
    for x in (a, b):
        for A in map(T.ATOMS.__getitem__, sorted(T.atoms_rec(x))):
            if A.kind in ("ge", "eq", "pos") and A not in guards:
                guards.append(A)
    k = 0
    for A in guards[:24]:
        q = A.args[0]
        off = A.args[1] if A.kind == "ge" else 0
        for m, c in q.t.items():
            if len(m) != 1 or m[0][1] != 1:
                continue
            V_ = T.ATOMS[m[0][0]]
            if V_.kind not in ("var", "elem") or V_.isbool:
                continue
            if not (V_.isint or exact):
                continue
            rest = T.mkpoly({mm: cc for mm, cc in q.t.items() if mm != m})
            for s in range(3):
                for d in ((0, -1, 1) if V_.isint else (0, Fraction(-1, 8), Fraction(1, 8))):
                    k += 1
                    if k > most:
                        return
                    e = fresh(3000 + s)
                    e.special = exact
                    try:
                        # the rest of the comparison at this point, then the value that meets its threshold
                        v = (Fraction(off) - e.ev(rest)) / c + d
                        if isinstance(v, float):
                            continue
                        if V_.isint and v.denominator != 1 or V_.nonneg and v < 0:
                            continue
                        lo, hi = T.BOUNDS.get(V_.id, (None, None))
                        if lo is not None and v < e.ev(lo) or hi is not None and v > e.ev(hi):
                            continue
                        env = dict(e.env)
                        if V_.kind == "var":
                            if V_.id in T.atoms_rec(rest):
                                continue
                            env[V_.args[0]] = v
                        else:
                            env[("at", str(V_.args[0]), tuple(num(e.ev(i)) for i in V_.args[1:]))] = v
                    except (Ambiguous, ZeroDivisionError):
                        continue
                    f = fresh(3000 + s)
                    f.special = exact
                    f.env.update(env)
                    f.given = {k: v for k, v in env.items() if not callable(v)}
                    yield f
