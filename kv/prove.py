"""Zero test for differences of closed forms: sum alignment and guard case splits over the normaliser."""
from fractions import Fraction

from . import term as T

ONE = T.const(1)


def sums(p):
    out = {}
    for m, c in p.t.items():
        for a, e in m:
            A = T.ATOMS[a]
            if A.kind == "sum":
                out[A.id] = A
    return list(out.values())


def peel(A, k, front):
    """sum A of length n (n >= k assumed) with k terms split off"""
    n, bid, body = A.args
    w = T.fresh("w", lo=0, hi=n - k - 1)
    r = T.const(0)
    if front:
        for i in range(k):
            r = r + T.subst(body, {bid: T.const(i)})
        return r + T.msum(n - k, w, T.subst(body, {bid: w + k}))
    for i in range(k):
        r = r + T.subst(body, {bid: n - 1 - i})
    return r + T.msum(n - k, w, T.subst(body, {bid: w}))


def align(p):
    """candidate rewritings of p in which sums of lengths n and n+k are brought to one length"""
    S = sums(p)
    for A in S:
        for B in S:
            if A is B:
                continue
            d = A.args[0] - B.args[0]
            if d.is_const() and d.cval().denominator == 1 and 0 < d.cval() <= 8:
                for front in (True, False):
                    yield T.subst(p, {A.id: peel(A, int(d.cval()), front)})


def guards(p):
    out = []
    for a in T.atoms_rec(p):
        A = T.ATOMS[a]
        if A.isbool and A.kind in ("ge", "eq", "pos"):
            # only guards free of bound variables can be assumed
            if not any(T.ATOMS[v].kind == "var" and str(T.ATOMS[v].args[0]).startswith("%") for v in A.fv):
                out.append(A)
    out.sort(key=lambda A: (T.depth_of(T.apoly(A)), A.id))
    return out


def bound_eq(A, v):
    """substitution implied by guard A == v on an integer variable at its bound"""
    if A.kind == "eq" and v:
        s = T.eq_solve(A)
        return {s[0].id: s[1]} if s else None
    if A.kind == "ge":
        q, c = A.args
        if len(q.t) == 1:
            (m, k), = q.t.items()
            if len(m) == 1 and m[0][1] == 1 and k == 1:
                x = T.ATOMS[m[0][0]]
                lo, hi = T.BOUNDS.get(x.id, (None, None))
                if lo is None and x.nonneg and x.isint:
                    lo = T.const(0)
                if not v and lo is not None and lo.is_const() and lo.cval() == c - 1:
                    return {x.id: lo}
                if v and hi is not None and hi.is_const() and hi.cval() == c:
                    return {x.id: hi}
    return None


def zero(p, depth=6, hyps=()):
    """True when p is provably identically 0 (under hyps)"""
    T._check_deadline()
    p = T.renorm(p)
    if p.is_zero():
        return True
    q = absorb(p)
    if q is not p and (q.is_zero() or T.renorm(q).is_zero()):
        return True
    for q in align(p):
        if T.renorm(q).is_zero():
            return True
    if depth <= 0:
        return False
    G = guards(p)
    if not G:
        return False
    A = G[0]
    for v in (1, 0):
        lit = T.apoly(A) if v else ONE - T.apoly(A)
        with T.assume(lit):
            q = T.setbool(p, A, v)
            s = bound_eq(A, v)
            if s:
                q = T.subst(q, s)
            q = T.renorm(q)
            if not zero(q, depth - 1):
                return False
    return True


# ------------------------------------------------------------------ absorbing split-off terms back into sums

def _terms_in(p, q):
    """q's terms all occur in p with the same coefficients"""
    return all(p.t.get(m) == c for m, c in q.t.items())


def absorb1(p):
    """SUM(k<n-1: f(k+1)) + f(0) -> SUM(k<n: f(k)), and at the other end"""
    for _ in range(8):
        hit = None
        for m, c in p.t.items():
            for a, e in m:
                A = T.ATOMS[a]
                if A.kind != "sum" or e != 1:
                    continue
                rest = T.mkpoly({tuple(x for x in m if x[0] != a): c})
                n, bid, body = A.args
                for at, sh in ((T.const(-1), -1), (n, 0)):
                    try:
                        t = rest * T.subst(body, {bid: at})
                    except T.Undecided:
                        continue
                    if t.is_zero() or not _terms_in(p, t):
                        continue
                    w = T.fresh("w", lo=0, hi=n)
                    hit = (T.mkpoly({m: c}) + t, rest * T.msum(n + 1, w, T.subst(body, {bid: w + sh})))
                    break
                if hit:
                    break
            if hit:
                break
        if not hit:
            return p
        p = p - hit[0] + hit[1]
    return p


def absorb(p, memo=None):
    """absorb1 at every level of p"""
    memo = {} if memo is None else memo
    if p in memo:
        return memo[p]
    has = any(T.ATOMS[a].kind == "sum" for a in T.atoms_rec(p))
    r = p
    if has:
        r = T.const(0)
        for m, c in p.t.items():
            v = T.const(c)
            for a, e in m:
                A = T.ATOMS[a]
                x = T.mkpoly({((a, 1),): Fraction(1)})
                if A.kind in ("pos", "ge", "eq", "sqrt", "absv", "inv", "cos", "sin", "expf", "ln", "log10", "trunc",
                              "floor", "sum", "powf") and any(T.ATOMS[b].kind == "sum" for b in T.atoms_rec(A)):
                    args = [absorb(y, memo) if isinstance(y, T.Poly) else y for y in A.args]
                    if any(y is not z for y, z in zip(args, A.args)):
                        x = T.rebuild(A, args)
                v = v * (x if e == 1 else T.ppow(x, e))
            r = r + v
        r = absorb1(r)
    memo[p] = r
    return r


# ------------------------------------------------------------------ short transforms with literal lengths

def expand(p, memo=None, depth=0):
    """transforms of literal length (at most 32) at a literal index, written out"""
    memo = {} if memo is None else memo
    mp = {}
    for a in T.atoms_rec(p):
        A = T.ATOMS[a]
        if A.kind == "app" and A.args[0] in ("dft_re", "dft_im", "rfft_re", "rfft_im", "irfft", "seqmax", "seqmin"):
            x = memo.get(a)
            if x is None:
                x = memo[a] = expand1(A)
            if x is not None:
                mp[a] = x
    if not mp:
        return p
    q = T.subst(p, mp)
    return expand(q, memo, depth + 1) if q is not p and depth < 4 else q


_written = {}
WIDE = [32]        # the longest transform that is written out


def written_out(s, n):
    from . import val as V
    r = _written.get(s)
    if r is None:
        r = _written[s] = V.lit([V.norm_val(s.at(T.const(k))) for k in range(n)])
        _written[r] = r
    return r


def expand1(A):
    from . import val as V
    name = A.args[0]
    if name in ("seqmax", "seqmin"):
        # the order of the items does not matter
        s = A.args[1]
        n = V.seq_len(s)
        if n is V.INF or not n.is_const() or n.cval() > 32:
            return None
        xs = {V.norm_val(s.at(T.const(i))) for i in range(int(n.cval()))}
        if not all(isinstance(x, T.Poly) for x in xs):
            return None
        if len(xs) == 1:
            return next(iter(xs))
        r = T.app(name, V.lit(sorted(xs, key=str)))
        return None if T.the_atom(r) is A else r
    if name in ("dft_re", "dft_im"):
        d, n, s, i = A.args[1:]
    else:
        n, s, i = A.args[1:]
    if n.is_const() and WIDE[0] < n.cval() <= 600 and V.seq_len(s) is n:
        # too long to write out: the transform of its items one by one
        q = written_out(s, int(n.cval()))
        if q is None or q is s:
            return None
        r = T.app(name, d, n, q, i) if name in ("dft_re", "dft_im") else T.app(name, n, q, i)
        return None if T.the_atom(r) is A else r
    if not (n.is_const() and i.is_const() and n.cval() <= WIDE[0]):
        return None
    N, f = int(n.cval()), int(i.cval())
    r = T.const(0)

    def ang(t, k):
        return T.const(Fraction(2 * ((t * k) % N), N)) * T.PI
    if name == "irfft":
        # unnormalised inverse of the half spectrum
        for k in range(N // 2 + 1):
            x = V.norm_val(s.at(T.const(k)))
            re, im = x.fields
            w = 1 if k == 0 or 2 * k == N else 2
            r = r + (re * T.cos(ang(k, f)) - im * T.sin(ang(k, f))).scale(w)
        return r
    sg = -1 if name.startswith("rfft") or str(d).strip("'\"") == "fwd" else 1
    for t in range(N):
        x = V.norm_val(s.at(T.const(t)))
        re, im = x.fields if isinstance(x, V.Agg) else (x, T.const(0))
        c, sn = T.cos(ang(t, f)), T.sin(ang(t, f)).scale(sg)
        if name.endswith("_re"):
            r = r + re * c - im * sn
        else:
            r = r + re * sn + im * c
    return r


def bitwise(p):
    """bytes that also occur bit by bit, written as the sum of their bits"""
    for a in list(p.atoms()):
        A = T.ATOMS[a]
        if A.kind == "app" and A.args[0] == "bit":
            u = T.the_atom(A.args[1])
            if u is not None and u.id in p.atoms():
                w = T.ZERO
                for j in range(8):
                    w = w + T.app("bit", A.args[1], T.const(j), isbool=True).scale(1 << j)
                q = T.ZERO
                for m, c in p.t.items():
                    e = dict(m).get(u.id, 0)
                    if e not in (0, 1):
                        return p
                    r = T.mkpoly({tuple(x for x in m if x[0] != u.id): c})
                    q = q + (r * w if e else r)
                return bitwise(q)
    return p
