"""Normal forms for scalar value numbers.

A scalar is a polynomial with rational coefficients over interned atoms (real
arithmetic; integers are mathematical integers).  Booleans are 0/1 polynomials
over idempotent atoms, so if-then-else, xor, and, not are plain algebra and
logically equal combinations share one normal form.
"""
from fractions import Fraction
import math

Z0 = Fraction(0)
ATOMS = []
_intern_atom = {}
_intern_poly = {}
BOUNDS = {}          # atom id -> (lo Poly|None, hi Poly|None)


class Undecided(Exception):
    pass


class Atom:
    __slots__ = ("id", "kind", "args", "isbool", "isint", "nonneg", "const", "fv", "depth", "tags")

    def __repr__(self):
        return atom_str(self)


class Ctx:
    def __init__(self):
        self.facts = ()          # polys known >= 0
        self.assumed = {}        # atom id -> 0/1
        self.gen = 0


CTX = Ctx()
_gens = {}


class assume:
    """context manager: boolean polys known to be 1 (True) inside"""

    def __init__(self, *conds, ge0=()):
        self.conds = conds
        self.ge0 = ge0

    def __enter__(self):
        self.save = (CTX.facts, CTX.assumed, CTX.gen)
        facts = list(CTX.facts)
        asm = dict(CTX.assumed)
        n0 = (len(facts), len(asm))
        for g in self.conds:
            _assume1(g, facts, asm)
        facts.extend(self.ge0)
        if (len(facts), len(asm)) != n0:
            CTX.facts = tuple(facts)
            CTX.assumed = asm
            k = (CTX.facts, frozenset(asm.items()))
            g = _gens.get(k)
            if g is None:
                g = _gens[k] = len(_gens) + 1
            CTX.gen = g
        return self

    def __exit__(self, *a):
        CTX.facts, CTX.assumed, CTX.gen = self.save


def _lit(g):
    """g as (atom, 1|0) literal, or None"""
    t = g.t
    if len(t) == 1:
        (m, c), = t.items()
        if c == 1 and len(m) == 1 and ATOMS[m[0][0]].isbool:
            return ATOMS[m[0][0]], 1
    if len(t) == 2 and t.get(()) == 1:
        for m, c in t.items():
            if m != () and c == -1 and len(m) == 1 and ATOMS[m[0][0]].isbool:
                return ATOMS[m[0][0]], 0
    return None


def _assume1(g, facts, asm):
    if g.is_const():
        return
    l = _lit(g)
    if l is not None:
        a, v = l
        if a.id in asm:
            return
        asm[a.id] = v
        if a.kind == "ge":
            P0, c = a.args
            facts.append(P0 - c if v else const(c - 1) - P0)
        elif a.kind == "eq":
            if v:
                facts.append(a.args[0])
                facts.append(-a.args[0])
        return
    if len(g.t) == 1:
        (m, c), = g.t.items()
        if c == 1:
            for aid, e in m:
                if ATOMS[aid].isbool:
                    _assume1(apoly(ATOMS[aid]), facts, asm)
        return
    # try to factor as product of literals: g = prod l_i ; test each bool atom
    for a in g.bool_atoms():
        g0 = g.subst0(a, 0)
        g1 = g.subst0(a, 1)
        if g0.is_zero():
            _assume1(apoly(a), facts, asm)
            _assume1(g1, facts, asm)
            return
        if g1.is_zero():
            _assume1(ONE - apoly(a), facts, asm)
            _assume1(g0, facts, asm)
            return


class Poly:
    __slots__ = ("t", "key", "_fv", "_h", "__weakref__")

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Z0)

    def __add__(self, o):
        o = P(o)
        if not self.t:
            return o
        if not o.t:
            return self
        d = dict(self.t)
        for m, c in o.t.items():
            v = d.get(m, Z0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return mkpoly(d)

    __radd__ = __add__

    def __neg__(self):
        return mkpoly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        return pmul(self, o)

    __rmul__ = __mul__

    def scale(self, c):
        if c == 0:
            return ZERO
        return mkpoly({m: v * c for m, v in self.t.items()})

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def bool_atoms(self):
        return [ATOMS[a] for a in sorted(self.atoms()) if ATOMS[a].isbool]

    def fv(self):
        if self._fv is None:
            f = frozenset()
            for a in self.atoms():
                f |= ATOMS[a].fv
            self._fv = f
        return self._fv

    def subst0(self, atom, val):
        """substitute a top-level atom by constant 0/1 (no recursion)"""
        d = {}
        for m, c in self.t.items():
            if any(a == atom.id for a, _ in m):
                if val == 0:
                    continue
                m = tuple(x for x in m if x[0] != atom.id)
            d[m] = d.get(m, Z0) + c
        return mkpoly({m: c for m, c in d.items() if c})

    def __repr__(self):
        return poly_str(self)


_tick = [0, None]


class deadline:
    """give up (Undecided) on the enclosed computation after `sec` seconds of work"""

    def __init__(self, sec):
        self.sec = sec

    def __enter__(self):
        import time
        self.save = _tick[1]
        t = time.process_time() + self.sec
        _tick[1] = t if self.save is None else min(t, self.save)

    def __exit__(self, *a):
        _tick[1] = self.save


def _check_deadline():
    import time
    if _tick[1] is not None and time.process_time() > _tick[1]:
        raise Undecided("analysis budget exhausted")


def total(xs):
    """sum of many terms at once"""
    d = {}
    for x in xs:
        for m, c in x.t.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
    return mkpoly(d)


def mkpoly(d):
    key = frozenset(d.items())
    p = _intern_poly.get(key)
    if p is None:
        _tick[0] += 1
        if not _tick[0] & 511:
            _check_deadline()
        for c in d.values():
            if c.denominator.bit_length() > 1200 or c.numerator.bit_length() > 1200:
                raise Undecided("number blow-up")
        p = Poly()
        p.t = d
        p.key = key
        p._fv = None
        p._h = hash(key)
        _intern_poly[key] = p
    return p


_consts = {}


def const(c):
    if type(c) is int and -4096 < c < 4096:
        p = _consts.get(c)
        if p is None:
            p = _consts[c] = mkpoly({(): Fraction(c)} if c else {})
        return p
    c = Fraction(c)
    return mkpoly({(): c} if c else {})


ZERO = mkpoly({})
ONE = const(1)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, (int, Fraction)):
        return const(x)
    raise TypeError("not scalar: %r" % (x,))


def _arg_fv(x):
    if isinstance(x, Poly):
        return x.fv()
    if hasattr(x, "fv"):
        return x.fv()
    if isinstance(x, tuple):
        f = frozenset()
        for y in x:
            f |= _arg_fv(y)
        return f
    return frozenset()


def raw_atom(kind, args=(), isbool=False, isint=False, nonneg=False, isconst=False, bound=frozenset()):
    k = (kind, args)
    a = _intern_atom.get(k)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind = kind
        a.args = args
        a.isbool = isbool
        a.isint = isint or isbool
        a.nonneg = nonneg or isbool
        a.const = isconst
        if kind == "var":
            a.fv = frozenset([a.id])
        else:
            f = frozenset()
            for x in args:
                f |= _arg_fv(x)
            a.fv = f - bound
        ATOMS.append(a)
        _intern_atom[k] = a
    return a


def apoly(a):
    if a.isbool and a.id in CTX.assumed:
        return ONE if CTX.assumed[a.id] else ZERO
    return mkpoly({((a.id, 1),): Fraction(1)})


_fresh = [0]


def var(name, isint=True, isbool=False, lo=None, hi=None, nonneg=None):
    a = raw_atom("var", (name,), isint=isint, isbool=isbool,
                 nonneg=(isint if nonneg is None else nonneg))
    if lo is not None or hi is not None:
        BOUNDS[a.id] = (P(lo) if lo is not None else None, P(hi) if hi is not None else None)
        if lo is not None and P(lo).is_const() and P(lo).cval() >= 0:
            a.nonneg = True
    return apoly(a)


def fresh(prefix="k", **kw):
    _fresh[0] += 1
    return var("%s#%d" % (prefix, _fresh[0]), **kw)


def the_atom(p):
    """p as a single atom with coefficient 1, or None"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return ATOMS[m[0][0]]
    return None


# ---------------------------------------------------------------- products

def _mono_mul(m1, m2):
    """merge two monomials -> (coef-free) normalised monomial list or Poly"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    spec = False
    for a, e in m2:
        A = ATOMS[a]
        if a in d:
            if A.isbool:
                continue
            e2 = d[a] + e
            if e2:
                d[a] = e2
            else:
                del d[a]
            if A.kind in ("sin", "sqrt", "absv"):
                spec = True
        else:
            d[a] = e
            if A.kind in ("ge", "eq", "expf", "pos"):
                spec = True
    m = tuple(sorted(d.items()))
    return m, spec


_mm_cache = {}


def mono_mul(m1, m2):
    """-> Poly (normalised product of two monomials)"""
    if m1 > m2:
        m1, m2 = m2, m1
    k = (m1, m2)
    r = _mm_cache.get(k)
    if r is not None:
        return r
    m, spec = _mono_mul(m1, m2)
    if not spec:
        r = mkpoly({m: Fraction(1)})
        _mm_cache[k] = r
        return r
    k = (m1, m2, CTX.gen)
    r = _mm_cache.get(k)
    if r is None:
        r = _norm_mono(m)
        _mm_cache[k] = r
    return r


def _norm_mono(m):
    d = dict(m)
    # ge chains on same P0
    ges = {}
    for a in list(d):
        A = ATOMS[a]
        if A.kind == "ge":
            P0, c = A.args
            if P0 in ges:
                o = ges[P0]
                keep = a if ATOMS[o].args[1] < c else o
                drop = o if keep == a else a
                del d[drop]
                ges[P0] = keep
            else:
                ges[P0] = a
    # comparisons of one real form with several thresholds
    rp = [ATOMS[a] for a in d if ATOMS[a].kind == "pos"]
    if rp:
        if _chain_pos(d, rp):
            return ZERO
    # eq atoms: x = e substitution into the rest
    eqs = [ATOMS[a] for a in d if ATOMS[a].kind == "eq"]
    for A in eqs:
        sol = eq_solve(A)
        if sol is None:
            continue
        x, e = sol
        rest = mkpoly({tuple(sorted((b, k) for b, k in d.items() if b != A.id)): Fraction(1)})
        if x.id in rest.fv() or any(x.id == q for q in rest.atoms()):
            r2 = subst(rest, {x.id: e})
            if r2 is not rest:
                return pmul(r2, mkpoly({((A.id, 1),): Fraction(1)}))
    for a in list(d):
        A = ATOMS[a]
        e = d[a]
        if A.kind == "sin" and e >= 2:
            rest = {b: k for b, k in d.items() if b != a}
            if e - 2:
                rest[a] = e - 2
            rest = mkpoly({tuple(sorted(rest.items())): Fraction(1)})
            return pmul(rest, ONE - cos(A.args[0]) * cos(A.args[0]))
        if A.kind == "sqrt" and (e >= 2 or e <= -1):
            # sqrt^2 -> P ; sqrt^-1 -> sqrt * P^-1
            rest = {b: k for b, k in d.items() if b != a}
            q, r = divmod(e, 2)
            if r:
                rest[a] = r
            rest = mkpoly({tuple(sorted(rest.items())): Fraction(1)})
            return pmul(rest, ppow(A.args[0], q))
        if A.kind == "absv" and e >= 2:
            rest = {b: k for b, k in d.items() if b != a}
            if e - 2:
                rest[a] = e - 2
            rest = mkpoly({tuple(sorted(rest.items())): Fraction(1)})
            return pmul(rest, A.args[0] * A.args[0])
    exps = [(a, e) for a, e in d.items() if ATOMS[a].kind == "expf"]
    if len(exps) > 1:
        tot = ZERO
        for a, e in exps:
            tot = tot + ATOMS[a].args[0].scale(e)
            del d[a]
        return pmul(mkpoly({tuple(sorted(d.items())): Fraction(1)}), expf(tot))
    return mkpoly({tuple(sorted(d.items())): Fraction(1)})


def _chain_pos(d, rp):
    """drop comparisons [q > 0] of the monomial d implied by its others; True when they contradict each other"""
    def gap(p, q):
        x = p - q
        if x.is_const():
            return 1 if x.cval() > 0 else (-1 if x.cval() < 0 else 0)
        return sign(x) if len(x.t) <= 2 and len(p.t) <= 3 else None

    live = list(rp)
    for i, A in enumerate(rp):
        for B in rp[i + 1:]:
            if A in live and B in live:
                g = gap(A.args[0], B.args[0])
                if g is not None and g != 0:
                    drop = A if g > 0 else B
                    live.remove(drop)
                    del d[drop.id]
    for E in [ATOMS[a] for a in d if ATOMS[a].kind == "eq"]:
        if is_int(E.args[0]):
            continue
        for A in list(live):
            g = gap(A.args[0], E.args[0])
            if g is None:
                continue
            if g <= 0:
                return True
            live.remove(A)
            del d[A.id]
    return False


MAXMUL = [4000]


def pmul(a, b):
    if not a.t or not b.t:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if len(a.t) == 1 and () in a.t:
        return b.scale(a.t[()])
    if len(b.t) == 1 and () in b.t:
        return a.scale(b.t[()])
    if len(a.t) * len(b.t) > MAXMUL[0]:
        raise Undecided("term blow-up")
    d = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            r = mono_mul(m1, m2)
            c = c1 * c2
            for m, v in r.t.items():
                nv = d.get(m, Z0) + c * v
                if nv:
                    d[m] = nv
                else:
                    d.pop(m, None)
    r = mkpoly(d)
    return _inv_reduce(r)


def ppow(p, e):
    if e == 0:
        return ONE
    if e < 0:
        return ppow(inv(p), -e)
    r = ONE
    b = p
    while e:
        if e & 1:
            r = r * b
        e >>= 1
        if e:
            b = b * b
    return r


def mono_lead(p):
    """a deterministic leading monomial: highest total degree then lexicographic"""
    return max(p.t, key=lambda m: (sum(e for _, e in m), m))


def exact_div(n, d):
    """polynomial quotient n/d if exact, else None"""
    if d.is_zero():
        return None
    q = ZERO
    lm = mono_lead(d)
    lc = d.t[lm]
    r = n
    for _ in range(60):
        if r.is_zero():
            return q
        hit = None
        for m in sorted(r.t, key=lambda m: (-sum(e for _, e in m), m)):
            x = mono_div(m, lm)
            if x is not None:
                hit = (m, x)
                break
        if hit is None:
            return None
        m, x = hit
        term = mkpoly({x: r.t[m] / lc})
        q = q + term
        r2 = r - term * d
        if len(r2.t) > len(r.t) + len(d.t) + 2:
            return None
        r = r2
    return None


def mono_div(m, l):
    d = dict(m)
    for a, e in l:
        if d.get(a, 0) < e or e < 0:
            return None
        d[a] -= e
        if d[a] == 0:
            del d[a]
    return tuple(sorted(d.items()))


def _inv_reduce(p):
    invs = [ATOMS[a] for a in p.atoms() if ATOMS[a].kind == "inv"]
    for A in invs:
        den = A.args[0]
        by = {}
        for m, c in p.t.items():
            e = dict(m).get(A.id, 0)
            by.setdefault(e, {})[tuple(x for x in m if x[0] != A.id)] = c
        top = max(by)
        if top >= 1 and len(by[top]) >= len(den.t):
            num = mkpoly(by[top])
            q = exact_div(num, den)
            if q is not None:
                rest = mkpoly({m: c for m, c in p.t.items() if dict(m).get(A.id, 0) != top})
                add = q
                if top > 1:
                    add = q * mkpoly({((A.id, top - 1),): Fraction(1)})
                return _inv_reduce(rest + add)
    return p


# ---------------------------------------------------------------- helpers

def is_int(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or not ATOMS[a].isint:
                return False
    return True


def is_boolp(p):
    return all(ATOMS[a].isbool for a in p.atoms()) and _range_bool(p)


def _range_bool(p):
    bs = p.bool_atoms()
    if len(bs) > 5:
        return False
    if not bs:
        return p.is_const() and p.cval() in (0, 1)
    a = bs[0]
    return _range_bool(p.subst0(a, 0)) and _range_bool(p.subst0(a, 1))


def numeric_const(p):
    """float value when p only has constant atoms, else None"""
    try:
        v = 0.0
        for m, c in p.t.items():
            x = float(c)
            for a, e in m:
                A = ATOMS[a]
                if not A.const:
                    return None
                x *= const_val(A) ** e
            v += x
        return v
    except (OverflowError, ZeroDivisionError, ValueError):
        return None


_cv = {}


def const_val(A):
    if A.id in _cv:
        return _cv[A.id]
    k = A.kind
    if k == "pi":
        v = math.pi
    else:
        x = numeric_const(A.args[0])
        v = {"sqrt": lambda: math.sqrt(x), "cos": lambda: math.cos(x), "sin": lambda: math.sin(x),
             "expf": lambda: math.exp(x), "ln": lambda: math.log(x), "inv": lambda: 1 / x,
             "absv": lambda: abs(x), "log10": lambda: math.log10(x),
             "powf": lambda: x ** numeric_const(A.args[1]),
             "f32": lambda: x}[k]()
    _cv[A.id] = v
    return v


PI = apoly(raw_atom("pi", (), isconst=True, nonneg=True))


# ---------------------------------------------------------------- sign prover

def atom_bounds(A):
    b = BOUNDS.get(A.id)
    lo = hi = None
    if b:
        lo, hi = b
    if A.isbool:
        lo, hi = ZERO, ONE
    if lo is None and A.nonneg:
        lo = ZERO
    return lo, hi


def _coef_nonneg(p, strict=False):
    """all monomials evidently >= 0 (after shifting vars by their constant lower bounds)"""
    # shift
    mp = {}
    for a in p.atoms():
        b = BOUNDS.get(a)
        if b and b[0] is not None and b[0].is_const() and b[0].cval() != 0:
            A = ATOMS[a]
            if any(a in ATOMS[q].fv and q != a for q in p.atoms()):
                continue
            mp[a] = b[0].cval()
    if mp:
        p = shift(p, mp)
        sh = set(mp)
    else:
        sh = set()
    pos = False
    for m, c in p.t.items():
        if c < 0:
            # constants atoms only -> numeric
            return False
        st = True
        for a, e in m:
            A = ATOMS[a]
            if a in sh:
                st = False
                continue
            if A.nonneg or A.kind in ("sqrt", "expf", "absv"):
                if not strictly_pos_atom(A):
                    st = False
                continue
            if e % 2 == 0:
                st = False
                continue
            return False
        if st:
            pos = True
    return pos if strict else True


def strictly_pos_atom(A):
    if A.kind in ("pi", "expf"):
        return True
    if A.const:
        return const_val(A) > 0
    b = BOUNDS.get(A.id)
    if b and b[0] is not None and b[0].is_const() and b[0].cval() > 0:
        return True
    if A.kind == "sum":
        return sum_positive(A)
    return False


def shift(p, mp):
    r = ZERO
    for m, c in p.t.items():
        q = const(c)
        for a, e in m:
            x = mkpoly({((a, 1),): Fraction(1)})
            if a in mp and e > 0:
                x = x + const(mp[a])
            q = pmul(q, ppow(x, e)) if e > 0 else pmul(q, mkpoly({((a, e),): Fraction(1)}))
        r = r + q
    return r


def coeff_of(p, aid):
    """p = A*x + B with A,B free of x (top-level and nested); None if not linear"""
    A = {}
    B = {}
    for m, c in p.t.items():
        d = dict(m)
        e = d.pop(aid, 0)
        if any(aid in ATOMS[q].fv for q in d):
            return None
        mm = tuple(sorted(d.items()))
        if e == 0:
            B[mm] = c
        elif e == 1:
            A[mm] = c
        else:
            return None
    return mkpoly(A), mkpoly(B)


_nn_cache = {}
APP_HOOK = {}


def nonneg(p, depth=6):
    if p.is_const():
        return p.cval() >= 0
    k = (p, CTX.gen)
    r = _nn_cache.get(k)
    if r is not None and (r[0] or r[1] >= depth):
        return r[0]
    v = _nonneg(p, depth)
    _nn_cache[k] = (v, depth)
    return v


def _box(p):
    """(lower bound from the constant bounds of the atoms, whether it is attained), or None"""
    lb = Fraction(0)
    seen = set()
    exact = True
    for m, c in p.t.items():
        l, h = Fraction(1), Fraction(1)
        for a, e in m:
            A = ATOMS[a]
            if A.isbool:
                al, ah = 0, 1
            else:
                b = BOUNDS.get(a)
                if b is None or b[0] is None or b[1] is None or not (b[0].is_const() and b[1].is_const()) \
                        or b[0].cval() < 0 or e < 0:
                    return None
                al, ah = b[0].cval() ** e, b[1].cval() ** e
            l, h = l * al, h * ah
            if a in seen or A.kind not in ("var", "elem", "app"):
                exact = False
            seen.add(a)
        lb += c * (l if c > 0 else h)
    return lb, exact


def _touched(p):
    """do the assumed facts mention an atom of p?"""
    at = set(p.atoms())
    return any(at & set(f.atoms()) for f in CTX.facts)


def _nonneg(p, depth):
    if _coef_nonneg(p):
        return True
    nc = numeric_const(p)
    if nc is not None:
        return nc >= -1e-15
    if len(p.t) > 3:
        b = _box(p)
        if b is not None:
            lb, exact = b
            if lb >= 0:
                return True
            if len(p.t) > 12 or exact and not _touched(p):
                return False
    if len(p.t) > 40:
        return False
    if depth <= 0:
        return False
    # bounded atoms, newest first
    for a in sorted(p.atoms(), reverse=True):
        A = ATOMS[a]
        lo, hi = atom_bounds(A)
        if hi is None and (lo is None or lo.is_const()):
            continue
        ab = coeff_of(p, a)
        if ab is None:
            continue
        ca, cb = ab
        if ca.is_zero():
            continue
        # a free item at its worst value loses nothing: no other order can do better
        free = A.kind in ("elem", "app") and (hi is None or hi.is_const()) and (lo is None or lo.is_const()) and not _touched(p)
        if hi is not None and nonneg(-ca, depth - 2):
            if nonneg(ca * hi + cb, depth if free else depth - 1):
                return True
            if free:
                return False
        elif lo is not None and nonneg(ca, depth - 2):
            if nonneg(ca * lo + cb, depth if free else depth - 1):
                return True
            if free:
                return False
    # facts
    facts = list(CTX.facts)
    for a in p.atoms():
        facts.extend(atom_facts(ATOMS[a]))
    for f in facts:
        if f.is_const():
            continue
        # cancel a negative monomial of p with one of f
        for mf, cf in f.t.items():
            if mf == () or cf >= 0:
                continue
            for mp_, cp in p.t.items():
                if cp < 0:
                    x = mono_div(mp_, mf)
                    if x is None:
                        continue
                    if any(not (ATOMS[q].nonneg) for q, _ in x):
                        continue
                    mult = mkpoly({x: cp / cf})
                    if nonneg(p - mult * f, depth - 2 if len(facts) > 3 else depth - 1):
                        return True
    return False


def atom_facts(A):
    if A.kind == "idiv":
        a, b = A.args
        x = mkpoly({((A.id, 1),): Fraction(1)})
        return [a - b * x, b * x + b - 1 - a]
    if A.kind == "trunc":
        x = mkpoly({((A.id, 1),): Fraction(1)})
        return [A.args[0] - x] if A.nonneg else []
    return []


def sum_positive(A):
    """Sum over a nonempty range of an even-power product: positive in generic position"""
    n, body = A.args[0], A.args[2]
    if not nonneg(n - 1):
        return False
    if len(body.t) != 1:
        return False
    (m, c), = body.t.items()
    if c <= 0:
        return False
    for a, e in m:
        if e % 2 and not strictly_pos_atom(ATOMS[a]):
            return False
    GENERIC.add("sum-of-squares>0")
    return True


GENERIC = set()


def nonneg_g(p):
    """nonneg outside any branch context (for flags stored in interned atoms)"""
    save = (CTX.facts, CTX.assumed, CTX.gen)
    CTX.facts, CTX.assumed, CTX.gen = (), {}, 0
    try:
        return nonneg(p)
    finally:
        CTX.facts, CTX.assumed, CTX.gen = save


def sign(p):
    """+1, -1, 0 when decided; None otherwise.  Generic-position rule: an even power is > 0."""
    if p.is_zero():
        return 0
    if p.is_const():
        return 1 if p.cval() > 0 else -1
    nc = numeric_const(p)
    if nc is not None:
        return 1 if nc > 1e-12 else (-1 if nc < -1e-12 else None)
    if _spos(p):
        return 1
    if _spos(-p):
        return -1
    t = _trig_sign(p)
    if t is None:
        t = _quad_sign(p)
    if t is not None:
        return t
    if is_int(p):
        if nonneg(p - 1):
            return 1
        if nonneg(-p - 1):
            return -1
        return None
    s1 = nonneg(p)
    if s1 and p.cval() > 0 and nonneg(p - p.cval()):
        return 1
    if not s1 and p.cval() < 0 and nonneg(-p + p.cval()):
        return -1
    return None


def _quad_sign(p):
    """sign of a quadratic in one atom without a change of sign (generic position at a double root)"""
    co = {0: Fraction(0), 1: Fraction(0), 2: Fraction(0)}
    at = None
    for m, c in p.t.items():
        if not m:
            co[0] = c
            continue
        if len(m) != 1 or m[0][1] not in (1, 2) or (at is not None and m[0][0] != at):
            return None
        at = m[0][0]
        co[m[0][1]] = c
    if at is None or not co[2] or ATOMS[at].isbool or ATOMS[at].isint:
        return None
    disc = co[1] * co[1] - 4 * co[0] * co[2]
    if disc > 0:
        return None
    if disc == 0:
        GENERIC.add("double root")
    return 1 if co[2] > 0 else -1


def _trig_sign(p):
    """sign of a polynomial in sines and cosines from the range of each term (generic position at the end of the range)"""
    lo = hi = Fraction(0)
    trig = bools = False
    for m, c in p.t.items():
        even = True
        for a, e in m:
            A = ATOMS[a]
            if A.kind not in ("sin", "cos") and not A.isbool or e < 0:
                return None
            trig = trig or not A.isbool
            bools = bools or A.isbool
            even = even and (e % 2 == 0 or A.isbool)
        if not m:
            lo, hi = lo + c, hi + c
        elif even:
            lo, hi = lo + min(c, 0), hi + max(c, 0)
        else:
            lo, hi = lo - abs(c), hi + abs(c)
    if not trig:
        return None
    if lo > 0 or hi < 0:
        return 1 if lo > 0 else -1
    if not bools and (lo == 0 or hi == 0):
        GENERIC.add("trigonometric polynomial not at the end of its range")
        return 1 if lo == 0 else -1
    return None


def _spos(p):
    """strictly positive: every monomial >0 (generic position for even powers)"""
    anyp = False
    for m, c in p.t.items():
        if c < 0:
            return False
        st = True
        for a, e in m:
            A = ATOMS[a]
            if strictly_pos_atom(A):
                continue
            if e % 2 == 0:
                GENERIC.add("even-power>0")
                continue
            if A.kind in ("absv",):
                GENERIC.add("abs>0")
                continue
            if A.kind == "sqrt":
                GENERIC.add("sqrt>0")
                continue
            if A.nonneg:
                st = False
                continue
            return False
        anyp = anyp or st
    return anyp


# ---------------------------------------------------------------- lifting of booleans out of arguments

MAXLIFT = 4


def _lift(args, f):
    """f(args) with top-level boolean atoms of args pulled outside; None if nothing to lift"""
    bs = set()
    for x in args:
        if isinstance(x, Poly):
            for a in x.atoms():
                if ATOMS[a].isbool:
                    bs.add(a)
    if not bs or len(bs) > MAXLIFT:
        return None
    b = ATOMS[max(bs)]
    bp = apoly(b)
    with assume(bp):
        hi = f(*[setbool(x, b, 1) if isinstance(x, Poly) else x for x in args])
    with assume(ONE - bp):
        lo = f(*[setbool(x, b, 0) if isinstance(x, Poly) else x for x in args])
    return lo + bp * (hi - lo)


def setbool(p, b, v):
    """p under assumption atom b == v; ge-implications followed"""
    q = subst(p, {b.id: ONE if v else ZERO})
    if b.kind in ("ge", "eq") and any(ATOMS[a].isbool for a in q.atoms()):
        q = renorm(q)
    return q


_rn_cache = {}


def renorm(p):
    """rebuild p's boolean/idiv atoms under the current assumptions"""
    if not CTX.facts and not CTX.assumed:
        return p
    k = (p, CTX.gen)
    r = _rn_cache.get(k)
    if r is None:
        r = _subst(p, {}, {}, True)
        _rn_cache[k] = r
    return r


# ---------------------------------------------------------------- atom constructors

def cos(p):
    if p.is_zero():
        return ONE
    l = _lift((p,), cos)
    if l is not None:
        return l
    sgn, q, off = _trig_norm(p)
    # off in {0,1,2,3}: cos(q + off*pi/2)
    if off == 0:
        return _cos0(q)
    if off == 1:
        return -(_sin0(q).scale(sgn))
    if off == 2:
        return -_cos0(q)
    return _sin0(q).scale(sgn)


def sin(p):
    if p.is_zero():
        return ZERO
    l = _lift((p,), sin)
    if l is not None:
        return l
    sgn, q, off = _trig_norm(p)
    if off == 0:
        return _sin0(q).scale(sgn)
    if off == 1:
        return _cos0(q)
    if off == 2:
        return -(_sin0(q).scale(sgn))
    return -_cos0(q)


_PIMONO = None


def _trig_norm(p):
    """p = sgn*q + off*pi/2 with canonical q; integer multiples of 2*pi dropped"""
    pid = the_atom(PI).id
    off = 0
    d = dict(p.t)
    pm = ((pid, 1),)
    c0 = d.pop(pm, 0)
    # integer * 2*pi terms vanish
    for m in list(d):
        dm = dict(m)
        if dm.get(pid) == 1 and len(m) > 1:
            c = d[m]
            rest = [(a, e) for a, e in m if a != pid]
            if c.denominator == 1 and c % 2 == 0 and all(e > 0 and ATOMS[a].isint for a, e in rest):
                del d[m]
    sgn = 1
    if d:
        q = mkpoly(d)
        if q.t[mono_lead(q)] < 0:
            # p = -(-p)
            sgn, q, c0 = -1, -q, -c0
    if c0:
        k = math.floor(c0 * 2)
        r = c0 - Fraction(k, 2)
        off = k % 4
    else:
        r = 0
    if not d:
        if r > Fraction(1, 4):
            # r pi = pi/2 - (1/2 - r) pi
            return -1, PI.scale(Fraction(1, 2) - r), (off + 1) % 4
        return 1, PI.scale(r) if r else ZERO, off
    if r:
        q = q + PI.scale(r)
    # p = sgn*(q + off*pi/2)
    return sgn, q, (sgn * off) % 4


def _isconstp(p):
    return all(ATOMS[a].const for a in p.atoms())


def _cos0(q):
    if q.is_zero():
        return ONE
    c = _pi_multiple(q)
    if c == Fraction(1, 4):
        return sqrt(const(2)).scale(Fraction(1, 2))
    if c == Fraction(1, 6):
        return sqrt(const(3)).scale(Fraction(1, 2))
    return apoly(raw_atom("cos", (q,), isconst=_isconstp(q)))


def _pi_multiple(q):
    if len(q.t) == 1:
        (m, c), = q.t.items()
        if m == ((the_atom(PI).id, 1),):
            return c
    return None


def _sin0(q):
    if q.is_zero():
        return ZERO
    c = _pi_multiple(q)
    if c == Fraction(1, 4):
        return sqrt(const(2)).scale(Fraction(1, 2))
    if c == Fraction(1, 6):
        return const(Fraction(1, 2))
    return apoly(raw_atom("sin", (q,), isconst=_isconstp(q)))


def sqrt(p):
    if p.is_const() and p.cval() >= 0:
        c = p.cval()
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return const(Fraction(a, b))
    l = _lift((p,), sqrt)
    if l is not None:
        return l
    return apoly(raw_atom("sqrt", (p,), isconst=_isconstp(p), nonneg=True))


def expf(p):
    if p.is_zero():
        return ONE
    l = _lift((p,), expf)
    if l is not None:
        return l
    a = the_atom(p)
    if a is not None and a.kind == "ln":
        return a.args[0]
    return apoly(raw_atom("expf", (p,), isconst=_isconstp(p), nonneg=True))


def ln(p):
    if p is ONE:
        return ZERO
    l = _lift((p,), ln)
    if l is not None:
        return l
    a = the_atom(p)
    if a is not None and a.kind == "expf":
        return a.args[0]
    return apoly(raw_atom("ln", (p,), isconst=_isconstp(p)))


def log10(p):
    if p is ONE:
        return ZERO
    if p.is_const():
        c = p.cval()
        if c.denominator == 1 and c > 0:
            s = str(c.numerator)
            if s[0] == "1" and set(s[1:]) <= {"0"}:
                return const(len(s) - 1)
    l = _lift((p,), log10)
    if l is not None:
        return l
    a = the_atom(p)
    if a is not None and a.kind == "powf" and a.args[0] is const(10):
        return a.args[1]
    return apoly(raw_atom("log10", (p,), isconst=_isconstp(p)))


def powf(b, e):
    if e.is_const() and e.cval().denominator == 1 and abs(e.cval()) <= 24:
        return ppow(b, int(e.cval()))
    if e.is_const() and e.cval() == Fraction(1, 2):
        return sqrt(b)
    l = _lift((b, e), powf)
    if l is not None:
        return l
    a = the_atom(e)
    if a is not None and a.kind == "log10" and b is const(10):
        return a.args[0]
    return apoly(raw_atom("powf", (b, e), isconst=_isconstp(b) and _isconstp(e), nonneg=(sign(b) == 1),
                          isint=is_int(b) and is_int(e) and nonneg(e)))


def absv(p):
    s = sign(p)
    if s is not None:
        return p.scale(s) if s else ZERO
    if nonneg(p):
        return p
    l = _lift((p,), absv)
    if l is not None:
        return l
    if p.t[mono_lead(p)] < 0:
        p = -p
    a = raw_atom("absv", (p,), isconst=_isconstp(p), nonneg=True, isint=is_int(p))
    return apoly(a)


def inv(p):
    if p.is_zero():
        raise Undecided("division by zero term")
    if p.is_const():
        return const(1 / p.cval())
    l = _lift((p,), inv)
    if l is not None:
        return l
    if len(p.t) == 1:
        (m, c), = p.t.items()
        d = {}
        extra = ONE
        for a, e in m:
            A = ATOMS[a]
            if A.kind == "sqrt":
                # 1/sqrt(P) = sqrt(P)/P
                extra = extra * apoly(A) * inv(A.args[0]) if e == 1 else extra * inv(ppow(apoly(A), e))
            elif A.kind == "expf":
                extra = extra * expf(-A.args[0].scale(e))
            else:
                d[a] = -e
        return mkpoly({tuple(sorted(d.items())): 1 / c}) * extra
    lead = p.t[mono_lead(p)]
    q = p.scale(1 / lead)
    # factor out a common monomial
    common = None
    for m in q.t:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            common = {a: min(e, dm[a]) for a, e in common.items() if a in dm and dm[a] > 0 and e > 0}
    common = {a: e for a, e in (common or {}).items() if e > 0 and not ATOMS[a].isbool}
    if common:
        cm = tuple(sorted(common.items()))
        q2 = mkpoly({mono_div(m, cm): c for m, c in q.t.items()})
        return inv(q2) * inv(mkpoly({cm: Fraction(1)})) * const(1 / lead)
    a = raw_atom("inv", (q,), isconst=_isconstp(q), nonneg=nonneg_g(q))
    return apoly(a).scale(1 / lead)


def div(a, b):
    r = pmul(a, inv(b))
    return r


def content(p):
    """positive rational content of the non-constant part"""
    g = 0
    l = 1
    for m, c in p.t.items():
        if m == ():
            continue
        g = math.gcd(g, abs(c.numerator))
        l = l * c.denominator // math.gcd(l, c.denominator)
    return Fraction(g, l) if g else Fraction(1)


def ge0(p):
    """[p >= 0] for integers"""
    if p.is_const():
        return ONE if p.cval() >= 0 else ZERO
    if not is_int(p):
        return ONE - pos(-p)
    l = _lift((p,), ge0)
    if l is not None:
        return l
    if nonneg(p):
        return ONE
    if nonneg(-p - 1):
        return ZERO
    c0 = p.cval()
    q = p - c0
    g = content(q)
    q = q.scale(1 / g)
    # q*g + c0 >= 0  <=> q >= ceil(-c0/g)
    c = math.ceil(-c0 / g)
    if q.t[mono_lead(q)] < 0:
        # q >= c  <=> -q <= -c <=> not(-q >= -c+1)
        return ONE - _ge_atom(-q, -c + 1)
    return _ge_atom(q, c)


def _ge_atom(q, c):
    for aid, v in CTX.assumed.items():
        A = ATOMS[aid]
        if A.kind == "ge" and A.args[0] is q:
            if v and A.args[1] >= c:
                return ONE
            if not v and A.args[1] <= c:
                return ZERO
    return apoly(raw_atom("ge", (q, c), isbool=True))


def pos(p):
    """[p > 0]"""
    if p.is_const():
        return ONE if p.cval() > 0 else ZERO
    if is_int(p):
        return ge0(p - 1)
    l = _lift((p,), pos)
    if l is not None:
        return l
    s = sign(p)
    if s is not None:
        return ONE if s > 0 else ZERO
    q, sg = _drop_pos_factors(p)
    if q is not p or sg < 0:
        return pos(q.scale(sg))
    lead = p.t[mono_lead(p)]
    if lead < 0:
        n = -p
        return ONE - pos(n) - eqz(n)
    q = p.scale(1 / lead)
    return apoly(raw_atom("pos", (q,), isbool=True))


def _drop_pos_factors(p):
    """divide out common monomial factors of known sign"""
    if len(p.t) < 1:
        return p, 1
    common = None
    for m in p.t:
        dm = dict(m)
        common = dm if common is None else {a: min(e, dm[a], key=abs) for a, e in common.items()
                                            if a in dm and dm[a] * e > 0}
    if not common:
        return p, 1
    sg = 1
    drop = {}
    for a, e in common.items():
        s = sign(mkpoly({((a, 1),): Fraction(1)}))
        if s in (1, -1):
            drop[a] = e
            if s < 0 and e % 2:
                sg = -sg
        elif e % 2 == 0:
            drop[a] = e
            GENERIC.add("even-power>0")
    if not drop:
        return p, 1
    d = {}
    for m, c in p.t.items():
        mm = []
        for a, e in m:
            e2 = e - drop.get(a, 0)
            if e2:
                mm.append((a, e2))
        d[tuple(mm)] = c
    return mkpoly(d), sg


def eqz(p):
    """[p == 0]"""
    if p.is_const():
        return ONE if p.cval() == 0 else ZERO
    l = _lift((p,), eqz)
    if l is not None:
        return l
    if is_int(p):
        if nonneg(p - 1) or nonneg(-p - 1):
            return ZERO
        g = content(p)
        c0 = p.cval()
        if (c0 / g).denominator != 1:
            return ZERO
        q = p.scale(1 / g)
        if nonneg(q) and nonneg(-q):
            return ONE
    else:
        s = sign(p)
        if s is not None:
            return ONE if s == 0 else ZERO
        q = p
    lead = q.t[mono_lead(q)]
    if lead < 0:
        q = -q
        lead = -lead
    if not is_int(p):
        q = q.scale(1 / lead)
    return apoly(raw_atom("eq", (q,), isbool=True))


_eqs = {}


def eq_solve(A):
    """eq atom -> (atom x, Poly e) with x = e, x not inside e; None if not solvable over integers"""
    r = _eqs.get(A.id, 0)
    if r != 0:
        return r
    p = A.args[0]
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            x = ATOMS[m[0][0]]
            if x.isbool:
                continue
            rest = p - mkpoly({m: c})
            if x.id in rest.atoms() or x.id in rest.fv():
                continue
            if any(x.id in ATOMS[q].fv for q in rest.atoms()):
                continue
            if x.kind != "var":
                continue
            if best is None or x.id > best[0].id:
                best = (x, rest.scale(-1 / c))
    _eqs[A.id] = best
    return best


def lt(a, b, isint):
    return ge0(b - a - 1) if isint else pos(b - a)


def bnot(a):
    return ONE - a


def band(a, b):
    return a * b


def bor(a, b):
    return a + b - a * b


def bxor(a, b):
    return a + b - (a * b).scale(2)


def ite(c, a, b):
    if a is b:
        return a
    return b + c * (a - b)


def _split_div(p, q):
    """p = q*A + R"""
    if len(q.t) == 1:
        (mq, cq), = q.t.items()
        A = {}
        R = {}
        for m, c in p.t.items():
            x = mono_div(m, mq)
            if x is not None and all(ATOMS[a].isint for a, _ in x):
                k = c / cq
                if x == () or k.denominator == 1:
                    fl = Fraction(math.floor(k))
                    if fl:
                        A[x] = A.get(x, Z0) + fl
                    r = c - fl * cq
                    if r:
                        R[m] = r
                else:
                    fl = Fraction(math.floor(k))
                    if fl:
                        A[x] = A.get(x, Z0) + fl
                    r = c - fl * cq
                    if r:
                        R[m] = r
            else:
                R[m] = c
        return mkpoly(A), mkpoly(R)
    # polynomial divisor: peel multiples on the leading monomial
    lm = mono_lead(q)
    lc = q.t[lm]
    A = ZERO
    R = p
    for _ in range(8):
        hit = None
        for m, c in R.t.items():
            x = mono_div(m, lm)
            if x is not None and all(ATOMS[a].isint for a, _ in x) and (c / lc).denominator == 1:
                term = mkpoly({x: c / lc})
                R2 = R - term * q
                if len(R2.t) < len(R.t) + len(q.t) - 1:
                    hit = (term, R2)
                    break
        if hit is None:
            break
        A = A + hit[0]
        R = hit[1]
    return A, R


IDIV_HOOK = [None]


def idiv(p, q):
    """floor division"""
    if q.is_zero():
        raise Undecided("division by zero term")
    if q is ONE:
        return p
    if p.is_const() and q.is_const():
        return const(math.floor(p.cval() / q.cval()))
    if IDIV_HOOK[0] is not None:
        r = IDIV_HOOK[0](p, q)
        if r is not None:
            return r
    if nonneg(q - 1):
        A, R = _split_div(p, q)
        if not A.is_zero() and nonneg(R) and nonneg(q - 1 - R):
            return A
    l = _lift((p, q), idiv)
    if l is not None:
        return l
    if not is_int(p) or not is_int(q):
        return apoly(raw_atom("floor", (div(p, q),), isint=True))
    A, R = _split_div(p, q)
    if R.is_zero():
        return A
    if nonneg(R):
        if nonneg(q - 1 - R):
            return A
        if nonneg(q.scale(2) - 1 - R):
            return A + ge0(R - q)
    elif nonneg(-R - 1):
        if nonneg(R + q):
            return A - 1
        if nonneg(R + q.scale(2)):
            return A - 2 + ge0(R + q)
    elif nonneg(R + q) and nonneg(q - 1 - R):
        return A - 1 + ge0(R)
    else:
        # remainder with the other rounding: R - q in [-q,0)
        pass
    # nested idiv(idiv(a,b),c)
    at = the_atom(R)
    if at is not None and at.kind == "idiv":
        return A + idiv(at.args[0], at.args[1] * q)
    # common integer factor: idiv(c*x, c*y) = idiv(x, y) handled for monomials
    g = common_int_factor(R, q)
    if g is not None:
        return A + idiv(g[0], g[1])
    return A + apoly(raw_atom("idiv", (R, q), isint=True, nonneg=nonneg_g(R)))


def common_int_factor(a, b):
    if not a.t or not b.t:
        return None
    common = None
    for m in list(a.t) + list(b.t):
        dm = {x: e for x, e in m if not ATOMS[x].isbool}
        common = dm if common is None else {x: min(e, dm[x]) for x, e in common.items() if x in dm}
    g = 0
    for c in list(a.t.values()) + list(b.t.values()):
        g = math.gcd(g, abs(c.numerator)) if c.denominator == 1 else 1
    cm = tuple(sorted((common or {}).items()))
    if not cm and g <= 1:
        return None
    f = lambda p: mkpoly({mono_div(m, cm): c / g for m, c in p.t.items()})
    return f(a), f(b)


def rem(p, q):
    return p - q * idiv(p, q)


def trunc(p):
    """float -> int cast towards zero"""
    if is_int(p):
        return p
    if p.is_const():
        return const(int(p.cval()))
    l = _lift((p,), trunc)
    if l is not None:
        return l
    nc = numeric_const(p)
    if nc is not None and abs(nc - round(nc)) > 1e-9:
        return const(int(nc))
    # quotient of integers: common denominator
    num, den = as_fraction(p)
    if den is not None and is_int(num) and is_int(den) and not den.is_const():
        if nonneg(num) and nonneg(den):
            return idiv(num, den)
    if den is not None and is_int(num) and den.is_const() and nonneg(num):
        return idiv(num, den)
    return apoly(raw_atom("trunc", (p,), isint=True, nonneg=nonneg_g(p)))


def floor_(p):
    if is_int(p):
        return p
    if nonneg(p):
        return trunc(p)
    num, den = as_fraction(p)
    if den is not None and is_int(num) and is_int(den) and nonneg(den):
        return idiv(num, den)
    return apoly(raw_atom("floor", (p,), isint=True))


def as_fraction(p):
    """p = num/den with integer-coefficient num, den from negative exponents and inv atoms"""
    den = ONE
    l = 1
    exps = {}
    invs = {}
    for m, c in p.t.items():
        l = l * c.denominator // math.gcd(l, c.denominator)
        for a, e in m:
            if e < 0:
                exps[a] = max(exps.get(a, 0), -e)
            elif ATOMS[a].kind == "inv":
                invs[a] = max(invs.get(a, 0), e)
    den = const(l) * mkpoly({tuple(sorted(exps.items())): Fraction(1)})
    for a, e in invs.items():
        den = den * ppow(ATOMS[a].args[0], e)
    num = ZERO
    for m, c in p.t.items():
        d = dict(m)
        f = const(c * l)
        for a, e in exps.items():
            d[a] = d.get(a, 0) + e
            if d[a] == 0:
                del d[a]
        for a, e in invs.items():
            k = e - d.pop(a, 0)
            f = f * ppow(ATOMS[a].args[0], k)
        num = num + f * mkpoly({tuple(sorted(d.items())): Fraction(1)})
    return num, den


def wrap(p, bits, signed):
    """narrowing integer cast"""
    if is_int(p):
        if signed:
            lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        else:
            lo, hi = 0, (1 << bits) - 1
        if (lo == 0 and nonneg(p) or lo < 0 and nonneg(p - lo)) and nonneg(const(hi) - p):
            return p
        if p.is_const():
            v = int(p.cval()) & ((1 << bits) - 1)
            if signed and v >> (bits - 1):
                v -= 1 << bits
            return const(v)
    l = _lift((p,), lambda x: wrap(x, bits, signed))
    if l is not None:
        return l
    a = raw_atom("wrap", (p, bits, signed), isint=True, nonneg=not signed)
    if not signed:
        BOUNDS.setdefault(a.id, (ZERO, const((1 << bits) - 1)))
    return apoly(a)


def f32(p):
    if p.is_const():
        import struct
        try:
            return const(Fraction(struct.unpack("f", struct.pack("f", float(p.cval())))[0]))
        except (OverflowError, struct.error):
            pass
    if is_int(p) and nonneg(p) and nonneg(const(1 << 24) - p):
        return p
    if is_boolp(p):
        return p
    a = the_atom(p)
    if a is not None and a.kind == "f32":
        return p
    l = _lift((p,), f32)
    if l is not None:
        return l
    return apoly(raw_atom("f32", (p,)))


# bound variables: canonical names by nesting depth

def depth_of(x):
    if isinstance(x, Poly):
        return max([depth_of(ATOMS[a]) for a in x.atoms()], default=0)
    if isinstance(x, Atom):
        d = _depth.get(x.id)
        if d is None:
            d = 0
            if x.kind == "var" and isinstance(x.args[0], str) and x.args[0].startswith("%"):
                d = int(x.args[0][1:])
            for y in x.args:
                d = max(d, depth_of(y))
            _depth[x.id] = d
        return d
    if isinstance(x, tuple):
        return max([depth_of(y) for y in x], default=0)
    if hasattr(x, "bdepth"):
        return x.bdepth()
    return 0


_depth = {}


def bvar(d):
    return var("%%%d" % d)


def bind(v, *bodies):
    """rename variable v (Poly var) to a canonical bound variable; returns (atom, bodies)"""
    va = the_atom(v)
    d = 0
    for b in bodies:
        d = max(d, depth_of(b))
    bv = bvar(d + 1)
    out = tuple(vsubst(b, {va.id: bv}) for b in bodies)
    return the_atom(bv), out


def msum(n, v, body):
    """sum_{v<n} body, linear normal form"""
    if body.is_zero() or n.is_zero():
        return ZERO
    va = the_atom(v)
    if n.is_const() and n.cval().denominator == 1 and n.cval() <= 16:
        r = ZERO
        for i in range(max(0, int(n.cval()))):
            r = r + subst(body, {va.id: const(i)})
        return r
    res = ZERO
    for m, c in body.t.items():
        dep = []
        free = []
        for a, e in m:
            (dep if va.id in ATOMS[a].fv else free).append((a, e))
        f = mkpoly({tuple(free): c})
        if not dep:
            res = res + f * n
            continue
        # pure powers of v
        if len(dep) == 1 and dep[0][0] == va.id and 1 <= dep[0][1] <= 3:
            e = dep[0][1]
            if e == 1:
                s = (n * (n - 1)).scale(Fraction(1, 2))
            elif e == 2:
                s = (n * (n - 1) * (n.scale(2) - 1)).scale(Fraction(1, 6))
            else:
                s = ((n * (n - 1)) * (n * (n - 1))).scale(Fraction(1, 4))
            res = res + f * s
            continue
        # eq selector
        done = False
        for a, e in dep:
            A = ATOMS[a]
            if A.kind == "eq" and va.id in A.fv:
                cb = coeff_of(A.args[0], va.id)
                if cb is not None and cb[0].is_const() and abs(cb[0].cval()) == 1:
                    root = cb[1].scale(-1 / cb[0].cval())
                    rest = mkpoly({tuple(x for x in dep if x[0] != a): Fraction(1)})
                    inr = ge0(root) * ge0(n - 1 - root)
                    res = res + f * inr * subst(rest, {va.id: root})
                    done = True
                    break
            if A.kind == "ge" and va.id in A.fv:
                cb = coeff_of(A.args[0], va.id)
                if cb is not None and cb[0].is_const() and cb[0].cval() in (1, -1):
                    rest = mkpoly({tuple(x for x in dep if x[0] != a): Fraction(1)})
                    if cb[0].cval() == 1:
                        # v >= c - B =: s
                        s = const(A.args[1]) - cb[1]
                        if nonneg(s) and nonneg(n - s):
                            w = fresh("w", lo=0, hi=n - s - 1)
                            res = res + f * msum(n - s, w, subst(rest, {va.id: w + s}))
                            done = True
                    else:
                        # -v + B >= c  => v <= B - c
                        s = cb[1] - A.args[1] + 1
                        if nonneg(s) and nonneg(n - s):
                            w = fresh("w", lo=0, hi=s - 1)
                            res = res + f * msum(s, w, subst(rest, {va.id: w}))
                            done = True
                    if done:
                        break
        if done:
            continue
        body1 = mkpoly({tuple(dep): Fraction(1)})
        if not (va.id in BOUNDS):
            pass
        bv, (b2,) = bind(v, body1)
        zero = _orth_zero(n, bv, b2)
        if zero:
            continue
        res = res + f * apoly(raw_atom("sum", (n, bv.id, b2), bound=frozenset([bv.id]),
                                       isint=is_int(b2), nonneg=all(ATOMS[a].nonneg or e % 2 == 0 for a, e in dep)))
    return res


ORTHO = [None]     # optional predicate (n, boundvar atom, body Poly) -> bool: hypothesis "this sum is 0"


def _orth_zero(n, bv, body):
    f = ORTHO[0]
    return bool(f and f(n, bv, body))


def app(name, *args, isbool=False, isint=False, nonneg=False):
    return apoly(raw_atom("app", (name,) + tuple(args), isbool=isbool, isint=isint, nonneg=nonneg))


def elem(src, *idx, isbool=False, isint=False, nonneg=False):
    """element of an input sequence"""
    l = _lift(idx, lambda *ix: elem(src, *ix, isbool=isbool, isint=isint, nonneg=nonneg))
    if l is not None:
        return l
    return apoly(raw_atom("elem", (src,) + tuple(idx), isbool=isbool, isint=isint, nonneg=nonneg))


def degree_in(p, aid):
    return max((e for m in p.t for a, e in m if a == aid), default=0)


def iterate(sym, U, init, k):
    """mu_0 = init, mu_{j+1} = U[sym := mu_j]; the value mu_k"""
    ma = the_atom(sym)
    if k.is_zero() or subst(U, {ma.id: init}) is init:
        return init
    c = k.cval()
    if c.denominator == 1 and c > 0 and c <= 4 and degree_in(U, ma.id) ** int(c) <= 9:
        x = iterate(sym, U, init, k - c)
        for _ in range(int(c)):
            x = subst(U, {ma.id: x})
        return x
    bv, (b,) = bind(sym, U)
    a = raw_atom("iter", (bv.id, b, init, k), isint=is_int(U) and is_int(init))
    # the bound variable is not free
    a.fv = (b.fv() - {bv.id}) | init.fv() | k.fv()
    return apoly(a)


_op = [0]


def opaque(reason):
    _op[0] += 1
    return apoly(raw_atom("opaque", (reason, _op[0])))


def opaques(x, seen=None):
    """set of opaque reasons inside x"""
    if seen is None:
        seen = {}
    if isinstance(x, Poly):
        r = seen.get(x)
        if r is None:
            r = set()
            for a in x.atoms():
                r |= opaques(ATOMS[a], seen)
            seen[x] = r
        return r
    if isinstance(x, Atom):
        if x.kind == "opaque":
            return {x.args[0]}
        r = seen.get(("a", x.id))
        if r is None:
            r = set()
            for y in x.args:
                r |= opaques(y, seen)
            seen[("a", x.id)] = r
        return r
    if isinstance(x, tuple):
        r = set()
        for y in x:
            r |= opaques(y, seen)
        return r
    if hasattr(x, "opq"):
        return x.opq(seen)
    return set()


def atoms_rec(x, out=None, seen=None):
    """all atoms, nested"""
    if out is None:
        out = set()
    if isinstance(x, Poly):
        for a in x.atoms():
            atoms_rec(ATOMS[a], out)
    elif isinstance(x, Atom):
        if x.id in out:
            return out
        out.add(x.id)
        for y in x.args:
            atoms_rec(y, out)
    elif isinstance(x, tuple):
        for y in x:
            atoms_rec(y, out)
    elif hasattr(x, "sub_terms"):
        for y in x.sub_terms():
            atoms_rec(y, out)
    return out


# ---------------------------------------------------------------- substitution

def vsubst(x, mp):
    if isinstance(x, Poly):
        return subst(x, mp)
    if isinstance(x, tuple):
        return tuple(vsubst(y, mp) for y in x)
    if hasattr(x, "subst"):
        return x.subst(mp)
    return x


def subst(p, mp):
    """mp: atom id -> Poly"""
    if not mp or not (p.fv() & mp.keys() or p.atoms() & mp.keys()):
        # non-var atoms may be keys too
        if not any(ATOMS[k].kind != "var" for k in mp):
            return p
    return _subst(p, mp, {}, False)


def _subst(p, mp, memo, force):
    r = memo.get(p)
    if r is not None:
        return r
    r = ZERO
    acc = {}
    for m, c in p.t.items():
        q = None
        keep = []
        for a, e in m:
            x = _subst_atom(ATOMS[a], mp, memo, force)
            if x is None:
                keep.append((a, e))
            else:
                f = ppow(x, e)
                q = f if q is None else pmul(q, f)
        if q is None:
            acc[m] = acc.get(m, Z0) + c
        else:
            k = mkpoly({tuple(keep): c})
            r = r + pmul(q, k)
    acc = {m: c for m, c in acc.items() if c}
    if acc:
        r = mkpoly(acc) + r if r.t else mkpoly(acc)
    memo[p] = r
    return r


def _subst_atom(A, mp, memo, force):
    """None if unchanged"""
    if A.id in mp:
        return mp[A.id]
    if A.kind in ("var", "pi", "opaque"):
        if force and A.isbool and A.id in CTX.assumed:
            return apoly(A)
        return None
    k = ("a", A.id)
    if k in memo:
        return memo[k]
    if not force:
        if not (A.fv & mp.keys()) and not any(ATOMS[q].kind != "var" for q in mp):
            memo[k] = None
            return None
    args2 = []
    ch = False
    for x in A.args:
        y = _subst_arg(x, mp, memo, force)
        if y is not x:
            ch = True
        args2.append(y)
    if not ch and not (force and A.kind in ("ge", "eq", "pos", "idiv", "sum", "absv", "trunc", "wrap", "elem")):
        r = None
        if A.isbool and A.id in CTX.assumed:
            r = apoly(A)
        memo[k] = r
        return r
    r = rebuild(A, args2)
    if r is apoly_raw(A):
        r = None
    memo[k] = r
    return r


def apoly_raw(a):
    return mkpoly({((a.id, 1),): Fraction(1)})


def _subst_arg(x, mp, memo, force):
    if isinstance(x, Poly):
        return _subst(x, mp, memo, force)
    if isinstance(x, tuple):
        y = tuple(_subst_arg(z, mp, memo, force) for z in x)
        return x if all(a is b for a, b in zip(x, y)) else y
    if hasattr(x, "subst"):
        return x.subst(mp) if mp else x
    return x


REBUILD = {}


def rebuild(A, args):
    k = A.kind
    if k == "ge":
        return ge0(args[0] - args[1])
    if k == "eq":
        return eqz(args[0])
    if k == "pos":
        return pos(args[0])
    if k == "cos":
        return cos(args[0])
    if k == "sin":
        return sin(args[0])
    if k == "sqrt":
        return sqrt(args[0])
    if k == "expf":
        return expf(args[0])
    if k == "ln":
        return ln(args[0])
    if k == "log10":
        return log10(args[0])
    if k == "powf":
        return powf(*args)
    if k == "absv":
        return absv(args[0])
    if k == "inv":
        return inv(args[0])
    if k == "idiv":
        return idiv(*args)
    if k == "trunc":
        return trunc(args[0])
    if k == "floor":
        return floor_(args[0])
    if k == "wrap":
        return wrap(*args)
    if k == "f32":
        return f32(args[0])
    if k == "sum":
        n, bvid, body = args
        w = fresh("w", lo=0, hi=n - 1)
        return msum(n, w, subst(body, {bvid: w}))
    if k == "iter":
        bvid, body, init, kk = args
        w = fresh("m", isint=A.isint, nonneg=False)
        return iterate(w, subst(body, {bvid: w}), init, kk)
    if k == "elem":
        r = elem(*args, isbool=A.isbool, isint=A.isint, nonneg=A.nonneg)
        b = BOUNDS.get(A.id)
        if b is not None and all(x is None or x.is_const() for x in b):
            a = the_atom(r)
            if a is not None:
                BOUNDS.setdefault(a.id, b)
        return r
    if k in REBUILD:
        return REBUILD[k](A, args)
    if k == "app":
        if args[0] in APP_HOOK:
            r = APP_HOOK[args[0]](*args[1:])
            if r is not None:
                return r
        a = raw_atom("app", tuple(args), isbool=A.isbool, isint=A.isint, nonneg=A.nonneg)
        if A.id in BOUNDS:
            BOUNDS.setdefault(a.id, BOUNDS[A.id])
        return apoly(a)
    return apoly(raw_atom(k, tuple(args), isbool=A.isbool, isint=A.isint, nonneg=A.nonneg, isconst=False))


# ---------------------------------------------------------------- printing

def fstr(c):
    return str(c.numerator) if c.denominator == 1 else "%d/%d" % (c.numerator, c.denominator)


def atom_str(A):
    k = A.kind
    if k == "var":
        return A.args[0]
    if k == "pi":
        return "pi"
    if k == "elem":
        return "%s[%s]" % (A.args[0], ",".join(map(str, A.args[1:])))
    if k == "ge":
        return "[%s>=%s]" % A.args
    if k == "eq":
        return "[%s==0]" % A.args
    if k == "pos":
        return "[%s>0]" % A.args
    if k == "sum":
        return "SUM(%s<%s: %s)" % (atom_str(ATOMS[A.args[1]]), A.args[0], A.args[2])
    if k == "iter":
        return "ITER(%s -> %s, from %s, %s times)" % (atom_str(ATOMS[A.args[0]]), A.args[1], A.args[2], A.args[3])
    if k == "opaque":
        return "?<%s>" % (A.args[0],)
    if k == "app":
        return "%s(%s)" % (A.args[0], ",".join(map(str, A.args[1:])))
    return "%s(%s)" % (k, ",".join(map(str, A.args)))


SHOWN = 5000                # atoms written out by one printed form: shared subterms print many times over
_show = [0, 0]


def poly_str(p):
    if _show[0] == 0:
        _show[1] = 0
    elif _show[1] > SHOWN:
        return "..."
    _show[0] += 1
    try:
        return poly_str1(p)
    finally:
        _show[0] -= 1


def poly_str1(p):
    if not p.t:
        return "0"
    out = []
    _show[1] += len(p.t)
    for m in sorted(p.t, key=lambda m: (len(m), m)):
        c = p.t[m]
        s = "*".join(atom_str(ATOMS[a]) + ("" if e == 1 else "^%d" % e) for a, e in m)
        if not s:
            out.append(fstr(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append("-" + s)
        else:
            out.append(fstr(c) + "*" + s)
    r = " + ".join(out)
    return r.replace("+ -", "- ")
