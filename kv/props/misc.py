"""Codes, packing, chaos, noise, metrics, numeric helpers, spectral processing."""
from .. import models as M
from ..check import *
from .modems import nrz, phase, guarded, litsum, ssum, roundtrip, ZERO, ONE, TWO, PI, FC
from .modems2 import hops, at

F = Fraction


def U(i, name="u"):
    u = T.elem(name, T.P(i), isint=True, nonneg=True)
    T.BOUNDS.setdefault(T.the_atom(u).id, (ZERO, K(255)))
    return u


def usrc(n=INF, name="u"):
    return Stream(V.gen(n, lambda i: U(i, name)))


def byte(name="u"):
    return nat(name, 0, hi=K(255))


def packed(i, L, b=B):
    """byte i of the bits, zero padded"""
    return litsum(8, lambda j: b(i * 8 + j) * (1 << int(j.cval())) if L is INF or int(i.cval()) * 8 + int(j.cval()) < L else ZERO)


# ------------------------------------------------------------------ C14
@prop("C14", 10)
def c14(c):
    w = "bool_to_u8"
    for L in range(0, 11):
        c.ob("a byte of %d bits" % L, w, guarded(lambda: c.same(
            c.value(w, [V.lit([B(i) for i in range(L)])]),
            sum((B(i) * (1 << i) for i in range(min(L, 8))), ZERO), what="bool_to_u8", where=w)))
    w8 = "u8_to_bools"
    ub = lambda: T.var("u", lo=0, hi=K(255))

    def unpack():
        u = ub()
        got = c.value(w8, [u])
        c.same(got, [bit(u, j) for j in range(8)], what="bit j of a byte", where=w8)
    c.ob("bit j of a byte is unpacked at position j", w8, guarded(unpack))

    def back():
        bs = [B(i) for i in range(8)]
        got = c.value(w8, [c.value(w, [V.lit(bs)])])
        c.same(got, bs, what="unpacking a packed byte", where=w8)
    c.ob("unpacking inverts packing", w8, guarded(back))

    def back2():
        u = ub()
        got = c.value(w, [c.value(w8, [u])])
        if got is u:
            return
        c.same(got, litsum(8, lambda j: bit(u, int(j.cval())) * (1 << int(j.cval()))), what="packing an unpacked byte", where=w)
    c.ob("packing inverts unpacking", w, guarded(back2))
    w = "bools_to_u8s"
    c.ob("packing an endless bit stream", w, guarded(lambda: c.items(
        c.stream(w, [bits()]), lambda n: packed(n, INF), what="bytes", where=w)))
    for L in (0, 1, 7, 8, 9, 15, 16, 17, 20) + ((24, 31, 33) if c.thorough else ()):
        c.ob("packing %d bits" % L, w, guarded(lambda: c.items(
            c.stream(w, [bits(K(L))]), lambda n: packed(n, L), K(-(-L // 8)), what="bytes", where=w)))
    w = "u8s_to_bools"
    for L in (INF, 0, 1, 2, 3):
        c.ob("unpacking %s bytes" % ("endless" if L is INF else L), w, guarded(lambda: c.items(
            c.stream(w, [usrc(INF if L is INF else K(L))]),
            lambda n: bit(U(T.idiv(n, K(8))), T.renorm(T.rem(n, K(8)))), INF if L is INF else K(8 * L), what="bits", where=w,
            split=[(K(8), K(j)) for j in range(8)] if L is INF else None)))
    for L in (8, 16):
        def rt():
            s, st, I = c.call("bools_to_u8s", [bits(K(L))])
            v, st, I = c.call("u8s_to_bools", [s], I=I, st=st)
            c.items(c.seq(v, st, I), B, K(L), what="unpacked packed bits", where="u8s_to_bools")
        c.ob("unpacking inverts packing, %d bits" % L, "u8s_to_bools", guarded(rt))
    en, de = "bch::bch_stream_encode", "bch::bch_stream_decode"
    for L in (0, 8, 16, 56, 64, 13) + ((112, 120, 61) if c.thorough else ()):
        nb = -(-L // 8)

        def frames():
            s = c.stream(en, [bits(K(L))])
            by = [packed(K(i), L) for i in range(nb)]
            out = []
            for k in range(0, nb, 7):
                d = by[k:k + 7]
                out += [[B(8 * i + j) if 8 * i + j < L else ZERO for j in range(8)] for i in range(k, k + len(d))]
                out += [[bit(M.rs_ecc(K(5), V.lit(d), K(q)), j) for j in range(8)] for q in range(5)]
            c.items(s, lambda n: out[int(n.cval()) // 8][int(n.cval()) % 8], K(8 * len(out)), what="encoded bit", where=en)
        c.ob("frames of %d bits: seven data bytes and five check bytes" % L, en, guarded(frames), sec=120)
    for L in (0, 96, 48, 144) + ((192, 104, 56, 64) if c.thorough else ()):
        if L % 96 and L % 96 < 48:
            continue

        def decode():
            s = c.stream(de, [bits(K(L))])
            out = []
            for k in range(0, L, 96):
                r = min(12, (L - k) // 8)
                by = V.lit([packed(K(k // 8 + i), INF) for i in range(r)])
                ok = T.app("rs_ok", K(5), by, isbool=True)
                for i in range(r - 5):
                    for j in range(8):
                        out.append(T.ite(ok, bit(M.rs_fix(K(5), by, K(i)), j), B(k + 8 * i + j)))
            c.items(s, lambda n: out[int(n.cval())], K(len(out)), what="decoded bit", where=de)
        c.ob("frames of twelve bytes are corrected as a whole and lose their five check bytes, %d bits" % L, de, guarded(decode), sec=240)

    def every():
        s = c.stream(en, [bits()])
        if s.length() is not INF:
            raise Bad("the code of an endless message ends", en, got=s.length())
        p = T.fresh("p", lo=0)
        d = V.lit([packed(p * 7 + i, INF) for i in range(7)])
        for i in range(96):
            w = B(p * 56 + i) if i < 56 else bit(M.rs_ecc(K(5), d, K(i // 8 - 7)), i % 8)
            c.same(s.at(p * 96 + i), w, what="bit %d of frame p" % i, where=en)
    c.ob("frames of an endless message: seven data bytes and five check bytes", en, guarded(every), sec=120)

    def back():
        s = c.stream(de, [bits()])
        if s.length() is not INF:
            raise Bad("the decoded message of an endless code ends", de, got=s.length())
        p = T.fresh("p", lo=0)
        by = V.lit([packed(p * 12 + i, INF) for i in range(12)])
        ok = T.app("rs_ok", K(5), by, isbool=True)
        for i in range(56):
            w = T.ite(ok, bit(M.rs_fix(K(5), by, K(i // 8)), i % 8), B(p * 96 + i))
            c.same(s.at(p * 56 + i), w, what="bit %d of decoded frame p" % i, where=de)
    c.ob("every frame of an endless code is corrected as a whole and loses its check bytes", de, guarded(back), sec=120)


def bit(u, j):
    """bit j of byte u"""
    return M.bit(T.P(u), int(T.P(j).cval()))


# ------------------------------------------------------------------ C18
def wh(i, j):
    return ONE if bin(i & j).count("1") % 2 == 0 else ZERO


@prop("C18", 5)
def c18(c):
    new, key = "hadamard::HadamardMatrix::new", "hadamard::HadamardMatrix::key"
    matrix = {}
    for n in (2, 4, 8, 16, 32, 64, 128, 512) + ((256, 1024) if c.thorough else ()):
        rows = {}

        def build():
            m = c.value(new, [K(n)])
            matrix[n] = m
            g = m.fields[0]
            c.same(g.length(), K(n), what="number of rows", where=new)
            for i in range(n):
                r = g.at(K(i))
                c.same(r.length(), K(n), what="length of a row", where=new)
                rows[i] = []
                for j in range(n):
                    x = r.at(K(j))
                    if not x.is_const():
                        raise T.Undecided("entry is not a constant")
                    rows[i].append(int(x.cval()))
            word = [int("".join(map(str, rows[i])), 2) for i in range(n)]
            for i in range(n):
                for k in range(i):
                    agree = n - (word[i] ^ word[k]).bit_count()
                    if 2 * agree != n:
                        raise Bad("rows %d and %d of the %d-point matrix agree in %d positions" % (k, i, n, agree), new,
                                  got=rows[k], want=rows[i])
            return "%d rows pairwise orthogonal" % n
        c.ob("distinct rows of size %d agree in half of their positions" % n, new, guarded(build), sec=240 if n < 256 else 600)

        def keys():
            if len(rows) != n:
                raise T.Undecided("no matrix")
            seen = []
            # one period and a half of the indices, and the wrap-around of any index
            for i in list(range(n - 1)) + [n - 1, n, 3 * n + 1]:
                m = matrix[n]
                r = c.value(key, [m, K(i)])
                r = [int(r.at(K(j)).cval()) for j in range(int(r.length().cval()))]
                if len(r) != n:
                    raise Bad("key %d has %d chips" % (i, len(r)), key)
                if 2 * sum(r) != n:
                    raise Bad("key %d of size %d has %d ones" % (i, n, sum(r)), key, got=r)
                if i < n - 1:
                    if r in seen:
                        raise Bad("keys %d and %d of size %d are equal" % (seen.index(r), i, n), key, got=r)
                    seen.append(r)
                elif r != seen[i % (n - 1)]:
                    raise Bad("key %d of size %d is not key %d" % (i, n, i % (n - 1)), key, got=r)
            return "%d distinct balanced keys" % len(seen)
        c.ob("keys of size %d are balanced, distinct and wrap around" % n, key, guarded(keys), sec=240)

        def anyindex():
            m = c.value(new, [K(n)])
            i = T.var("i", lo=0)
            r = c.value(key, [m, i])
            q = T.var("q", lo=0)
            # with the index q*(n-1)+t the key is row t+1
            for t in range(n - 1):
                got = c.value(key, [m, q * (n - 1) + t])
                c.same(got, c.value(key, [m, K(t)]), what="key q*(n-1)+%d" % t, where=key)
        if n <= 8:
            c.ob("any index of size %d is accepted and wraps around" % n, key, guarded(anyindex))


# ------------------------------------------------------------------ C20
@prop("C20", 8)
def c20(c):
    x, mu = real("x"), real("mu")
    two = K(2)
    for w, args, want in (
            ("chaos::logistic_map::logistic_map", [mu, x], mu * x * (1 - x)),
            ("chaos::chebyshev::chebyshev", [x], x * x * x * 3 - x * 2),
            ("chaos::tent_map", [mu, x], two * mu * (1 - T.absv(x)) - 1),
            ("chaos::bernoulli_map", [mu, x], mu * x + 1 - (1 - T.pos(-x)) * 2)):
        c.ob("%s is the stated map" % w, w, guarded(lambda: c.same(c.value(w, args), want, what=w, where=w)))

    def it(w, U, x0, *par):
        z = T.fresh("z", isint=False)

        def f():
            s = c.stream(w, list(par) + [x0])
            if s.length() is not INF:
                raise Bad("the generator ends", w, got=s.length())
            for k in range(2):
                c.same(s.at(K(k)), apply(U, x0, k + 1), what="value %d" % k, where=w)
            for k in range(5):
                c.same(s.at(K(k)), U(T.iterate(z, U(z), x0, K(k))), what="value %d" % k, where=w)
            n = T.fresh("n", lo=0)
            v = T.iterate(z, U(z), x0, n)
            c.same(s.at(n), U(v), what="value n", where=w)
            # every value is the map of the one before
            c.same(s.at(n + 1), U(s.at(n)), what="value n+1", where=w)
        return f
    fam = [("chaos::logistic_map::LogisticMap::new", lambda m: (lambda z: m * z * (1 - z)), [mu, K(0), K(4), T.const(F(39, 10))], [real("x0"), K(0), T.const(F(1, 10))]),
           ("chaos::chebyshev::Chebyshev::new", None, [None], [real("x0"), K(0), K(-1), K(1), T.const(F(1, 2)), T.const(F(-1, 3))])]
    for w, mk, mus, x0s in fam:
        for m in mus:
            for x0 in x0s:
                Um = mk(m) if mk else (lambda z: z * z * z * 3 - z * 2)
                c.ob("%s(%s) yields the iterates" % (w, ", ".join(str(a) for a in ([m] if m is not None else []) + [x0])), w,
                     guarded(it(w, Um, x0, *([m] if m is not None else []))))

    # the interval is closed under the map: a Bernstein certificate for the polynomial the source computes
    def inv(w, args, sym, lo, hi, corners):
        def f():
            p = c.value(w, args)
            for sub in corners:
                q = T.subst(p, sub)
                mn, mx = bern(q, sym, lo, hi)
                if mn is None:
                    raise T.Undecided("not a polynomial in one variable")
                if mn < lo or mx > hi:
                    # exact extremum by sampling the derived polynomial
                    for i in range(401):
                        v = lo + (hi - lo) * F(i, 400)
                        y = evalp(q, sym, v)
                        if y < lo or y > hi:
                            raise Bad("the map leaves [%s, %s]" % (lo, hi), w, got="f(%s) = %s" % (float(v), float(y)))
                    raise T.Undecided("bound not established")
            return "maps [%s, %s] into itself" % (lo, hi)
        return f
    c.ob("the logistic map keeps [0,1] for mu in [0,4]", "chaos::logistic_map::logistic_map",
         guarded(inv("chaos::logistic_map::logistic_map", [mu, x], x, F(0), F(1),
                     # linear in mu: the ends decide
                     [{T.the_atom(mu).id: K(0)}, {T.the_atom(mu).id: K(4)}])))
    c.ob("the cubic map keeps [-1,1]", "chaos::chebyshev::chebyshev",
         guarded(inv("chaos::chebyshev::chebyshev", [x], x, F(-1), F(1), [{}])))


def apply(U, x, k):
    for _ in range(k):
        x = U(x)
    return x


def coeffs(p, sym):
    a = T.the_atom(sym).id
    out = {}
    for m, cf in p.t.items():
        if not m:
            out[0] = cf
        elif len(m) == 1 and m[0][0] == a:
            out[m[0][1]] = cf
        else:
            return None
    return out


def evalp(p, sym, v):
    return sum((cf * v ** e for e, cf in coeffs(p, sym).items()), F(0))


def bern(p, sym, lo, hi, depth=7):
    """enclosure of a polynomial's range over [lo, hi] by subdivided Bernstein coefficients"""
    from math import comb
    co = coeffs(p, sym)
    if co is None:
        return None, None
    d = max(co, default=0)

    def box(l, h, k):
        # q(t) = p(l + (h-l) t)
        q = [F(0)] * (d + 1)
        for e, cf in co.items():
            for j in range(e + 1):
                q[j] += cf * comb(e, j) * l ** (e - j) * (h - l) ** j
        b = [sum(F(comb(i, j), comb(d, j)) * q[j] for j in range(i + 1)) for i in range(d + 1)]
        if k == 0 or (lo <= min(b) and max(b) <= hi):
            return min(b), max(b)
        m = (l + h) / 2
        x, y = box(l, m, k - 1), box(m, h, k - 1)
        return min(x[0], y[0]), max(x[1], y[1])
    return box(F(lo), F(hi), depth)


# ------------------------------------------------------------------ C22
def draws(p):
    """noise atoms of a scalar: [(source, index)]"""
    return [(A.args[0], A.args[1:]) for A in (T.ATOMS[a] for a in T.atoms_rec(p))
            if A.kind == "elem" and str(A.args[0]).startswith("entropy#")]


@prop("C22", 5)
def c22(c):
    sg = real("sg", nonneg=True)

    def noisy(s, base, n, where):
        x = s.at(n)
        ds = draws(x)
        if len(set(ds)) > 1:
            raise Bad("one component draws several noise values", where, got=x)
        if not ds:
            un = uninterpreted(x)
            if un:
                raise T.Undecided("sample depends on %s" % sorted(un))
            raise Bad("no noise is added", where, got=x, want=base)
        nm, ix = ds[0]
        e = T.elem(nm, *ix)
        c.same(x, base + sg * e, what="noisy sample", where=where)
        d = [T.P(j) for j in ix]
        st = steps(d, n)
        if not any(st):
            raise Bad("samples share one noise draw", where, got=x)
        if any(q is None for q in st) or len([q for q in st if q]) != 1:
            raise T.Undecided("noise index %s" % (ix,))
        return nm, d, st, n

    def steps(d, n):
        """how far each index moves per sample"""
        out = []
        for p in d:
            q = T.subst(p, {T.the_atom(n).id: n + 1}) - p
            out.append(int(q.cval()) if q.is_const() and q.cval().denominator == 1 else None)
        return out

    def apart(a, b, got):
        """two components never use the same draw"""
        (na, da, sa, n), (nb, db, sb, m) = a, b
        if na != nb or len(da) != len(db):
            return
        differ = False
        for p, q, s, t in zip(da, db, sa, sb):
            r = (p - n * s) - (q - m * t)
            if not r.is_const():
                raise T.Undecided("noise indices %s %s" % (da, db))
            if s == t == 0:
                differ = differ or not r.is_zero()
            elif s != t:
                raise T.Undecided("noise indices %s %s" % (da, db))
            else:
                differ = differ or r.cval() % abs(s) != 0
        if not differ:
            raise Bad("real and imaginary part share their noise", "awgn_complex", got=got)

    for w, mk in (("awgn", lambda L: src("x", L)), ("awgn_py", lambda L: V.gen(L, lambda i: X(i)))):
        for lab, L in (("endless", INF), ("any finite", nat("L", 0))):
            if L is INF and w == "awgn_py":
                continue

            def f():
                s = c.stream(w, [mk(L), sg])
                c.same(s.length() if L is not INF else ZERO, L if L is not INF else ZERO, what="number of samples", where=w)
                if (s.length() is INF) != (L is INF):
                    raise Bad("number of samples changes", w, got=s.length(), want=L)
                n = T.fresh("n", lo=0, hi=None if L is INF else L - 1)
                noisy(s, X(n), n, w)
            c.ob("%s adds one fresh draw per sample, %s signal" % (w, lab), w, guarded(f))

    def each(w, n):
        s = c.stream(w, [V.gen(K(n), lambda i: X(i)) if w == "awgn_py" else src("x", K(n)), sg])
        c.same(s.length(), K(n), what="number of samples", where=w)
        seen = {}
        for i in range(n):
            x = s.at(K(i))
            ds = draws(x)
            if len(ds) != 1:
                if uninterpreted(x):
                    raise T.Undecided("sample depends on %s" % sorted(uninterpreted(x)))
                raise Bad("%d noise draws in one sample" % len(ds), w, got=x)
            if any(T.P(j).fv() for j in ds[0][1]):
                raise T.Undecided("noise index")
            if ds[0] in seen:
                raise Bad("samples %d and %d share one noise draw" % (seen[ds[0]], i), w, got=x)
            seen[ds[0]] = i
            c.same(x, X(K(i)) + sg * T.elem(ds[0][0], *ds[0][1]), what="noisy sample", where=w)
    for w in ("awgn", "awgn_py"):
        for n in (3, 1100):
            c.ob("%s of %d samples" % (w, n), w, guarded(lambda: each(w, n)))

    def cplx():
        w = "awgn_complex"
        s = c.stream(w, [csrc(), sg])
        if s.length() is not INF:
            raise Bad("the noisy signal ends", w)
        n = T.fresh("n", lo=0)
        z = s.at(n)
        parts = [Stream(V.gen(INF, lambda i, k=k: s.at(i).fields[k])).seq for k in (0, 1)]
        a = noisy(parts[0], X(n, "re"), n, w)
        b = noisy(parts[1], X(n, "im"), n, w)
        apart(a, b, z)
    c.ob("awgn_complex adds independent draws to both parts", "awgn_complex", guarded(cplx))

    def cfin():
        w = "awgn_complex"
        L = nat("L", 0)
        s = c.stream(w, [csrc(L), sg])
        c.same(s.length(), L, what="number of samples", where=w)
    c.ob("awgn_complex keeps the number of samples", "awgn_complex", guarded(cfin))

    def pure():
        w = "pure_awgn"
        L = nat("L", 0)
        s = c.stream(w, [L, sg])
        c.same(s.length(), L, what="number of samples", where=w)
        n = T.fresh("n", lo=0, hi=L - 1)
        noisy(s, ZERO, n, w)
    c.ob("pure_awgn yields the requested number of draws", "pure_awgn", guarded(pure))

    def rnd():
        w = "random_data"
        L = nat("L", 0)
        s = c.value(w, [V.Opaque("py"), L])
        if not V.is_seq(s):
            raise T.Undecided("random_data yields %s" % type(s).__name__)
        c.same(s.length(), L, what="number of bits", where=w)
        n = T.fresh("n", lo=0, hi=L - 1)
        x = V.seq_at(s, n)
        ds = draws(x)
        if x.is_const():
            raise Bad("a bit is not random", w, got=x)
        if len(ds) != 1 or x is not T.elem(ds[0][0], *ds[0][1], isbool=True):
            raise T.Undecided("random bit %s" % x)
        if not any(steps([T.P(j) for j in ds[0][1]], n)):
            raise Bad("bits share one draw", w, got=x)
    c.ob("random_data yields the requested number of bits", "random_data", guarded(rnd))


# ------------------------------------------------------------------ C23
@prop("C23", 10)
def c23(c):
    L, Mn = nat("L", 1), nat("M", 1)
    x = lambda n: V.gen(n, lambda i: X(i))
    sq = lambda n: ssum(n, lambda k: X(k) * X(k))
    fs = real("fs", nonneg=True)
    a, b = (lambda i: B(i, "a")), (lambda i: B(i, "b"))
    ne = lambda i: a(i) + b(i) - a(i) * b(i) * 2
    w = "ber"
    c.ob("bit error rate, equal lengths", w, guarded(lambda: c.same(
        c.value(w, [V.gen(L, a), V.gen(L, b)]), T.div(ssum(L, ne), L), what=w, where=w)))
    mn = Mn + (L - Mn) * T.ge0(Mn - L)
    c.ob("bit error rate over the common prefix", w, guarded(lambda: c.same(
        c.value(w, [V.gen(L, a), V.gen(Mn, b)]),
        T.ite(T.ge0(Mn - L), T.div(ssum(mn, ne), L), T.div(ssum(mn, ne), Mn)), what=w, where=w)))
    for p, q in ((1, 1), (2, 5), (5, 2), (3, 3)):
        m = min(p, q)
        c.ob("bit error rate of %d and %d bits" % (p, q), w, guarded(lambda: c.same(
            c.value(w, [V.gen(K(p), a), V.gen(K(q), b)]), litsum(m, ne).scale(F(1, m)), what=w, where=w)))
    for n in (600, 200000):
        c.ob("bit error rate of %d bits" % n, w, guarded(lambda: c.same(
            c.value(w, [V.gen(K(n), a), V.gen(K(n + 1), b)]), ssum(K(n), ne).scale(F(1, n)), what=w, where=w)))
    for w in ("avg_energy", "avg_energy_py"):
        c.ob("%s is the mean of squares" % w, w, guarded(lambda: c.same(
            c.value(w, [x(L)]), T.div(sq(L), L), what=w, where=w)))
    w = "energy"
    c.ob("energy is the sum of squares over the sample rate", w, guarded(lambda: c.same(
        c.value(w, [Stream(x(L)), fs]), T.div(sq(L), fs), what=w, where=w)))
    c.ob("energy of no samples", w, guarded(lambda: c.same(
        c.value(w, [Stream(x(K(0))), fs]), ZERO, what=w, where=w)))
    w = "power"
    c.ob("power is the energy per sample", w, guarded(lambda: c.same(
        c.value(w, [Stream(x(L)), fs]), T.div(T.div(sq(L), fs), L), what=w, where=w)))
    for n in (1, 2, 3):
        for w, want in (("energy", lambda s: T.div(s, fs)), ("power", lambda s: T.div(s.scale(F(1, n)), fs))):
            c.ob("%s of %d samples" % (w, n), w, guarded(lambda: c.same(
                c.value(w, [Stream(x(K(n))), fs]), want(litsum(n, lambda k: X(k) * X(k))), what=w, where=w)))
        for w in ("avg_energy", "avg_energy_py"):
            c.ob("%s of %d samples" % (w, n), w, guarded(lambda: c.same(
                c.value(w, [x(K(n))]), litsum(n, lambda k: X(k) * X(k)).scale(F(1, n)), what=w, where=w)))


# ------------------------------------------------------------------ C24
def dec(s):
    return T.const(F(s))


def erf_spec(x):
    t = T.div(ONE, ONE + T.absv(x).scale(F(1, 2)))
    cs = ["1.00002368", "0.37409196", "0.09678418", "-0.18628806", "0.27886807", "-1.13520398", "1.48851587", "-0.82215223", "0.17087277"]
    e = -(x * x) - dec("1.26551223")
    tp = ONE
    for k in cs:
        tp = tp * t
        e = e + tp * dec(k)
    tau = t * T.expf(e)
    return T.ite(ONE - T.pos(-x), ONE - tau, tau - ONE)


@prop("C24", 12)
def c24(c):
    x = real("x")
    xp = real("xp", nonneg=True)
    c.ob("db is 10 log10", "db", guarded(lambda: c.same(c.value("db", [xp]), T.log10(xp) * 10, what="db", where="db")))
    c.ob("undb is 10^(x/10)", "undb", guarded(lambda: c.same(
        c.value("undb", [x]), T.powf(K(10), x.scale(F(1, 10))), what="undb", where="undb")))
    for nm, h, arg, s in (("positive", T.pos(x), x, 1), ("negative", T.pos(-x), x, -1)):
        def half():
            y = real("y", nonneg=True)
            arg = T.const(F(1, 8)) + y if s > 0 else -(T.const(F(1, 8)) + y)
            c.same(c.value("erf", [arg]), erf_spec(arg), what="erf", where="erf")
        c.ob("erf is the stated approximation for %s arguments" % nm, "erf", guarded(half))

        def odd():
            y = real("y", nonneg=True) + T.const(F(1, 8))
            c.same(c.value("erf", [-y]) + c.value("erf", [y]), ZERO, what="erf(-x) + erf(x)", where="erf")
    c.ob("erf is odd", "erf", guarded(odd))
    c.ob("erf is the stated approximation", "erf", guarded(lambda: c.same(c.value("erf", [x]), erf_spec(x), what="erf", where="erf")))
    c.ob("erfc is one minus erf", "erfc", guarded(lambda: c.same(
        c.value("erfc", [x]), ONE - c.value("erf", [x]), what="erfc", where="erfc")))
    a, b, n = real("a"), real("b"), nat("n", 1)
    c.ob("grid points", "linspace", guarded(lambda: c.items(
        c.stream("linspace", [a, b, n]), lambda i: a + T.div((b - a) * i, n), n, what="grid", where="linspace")))
    for m in (0, 1, 2, 5):
        c.ob("grid of %d points" % m, "linspace", guarded(lambda: c.items(
            c.stream("linspace", [a, b, K(m)]), lambda i: a + T.div((b - a) * i, K(m)), K(m), what="grid", where="linspace")))
    for w, cx in (("hamming_window", False), ("hamming_window_complex", True)):
        def win(i, m):
            v = dec("0.54") - dec("0.46") * T.cos(T.div(TWO * PI * i, m))
            return V.cplx(v, ZERO) if cx else v
        c.ob("%s of any length" % w, w, guarded(lambda: c.items(
            (c.value(w, [n])), lambda i: win(i, n), n, what=w, where=w)))
        for m in (0, 1, 2, 4, 7):
            c.ob("%s of length %d" % (w, m), w, guarded(lambda: c.items(
                (c.value(w, [K(m)])), lambda i: win(i, K(m)), K(m), what=w, where=w)))
    w = "fftshift"
    for m in range(0, 10):
        h = (m + 1) // 2
        c.ob("spectrum shift of %d bins" % m, w, guarded(lambda: c.items(
            (c.value(w, [V.lit([X(i) for i in range(m)])])), lambda i: X((int(i.cval()) + h) % m), K(m), what=w, where=w)))
    h = T.idiv(n + 1, TWO)
    c.ob("spectrum shift of any length", w, guarded(lambda: c.items(
        (c.value(w, [V.gen(n, lambda i: X(i))])),
        lambda i: T.ite(T.ge0(i - (n - h)), X(i - n + h), X(i + h)), n, what=w, where=w)))
    c.ob("bit to +-1", "bit_to_nrz", guarded(lambda: c.same(c.value("bit_to_nrz", [B(0)]), nrz(B(0)), what="nrz", where="bit_to_nrz")))


# ------------------------------------------------------------------ C30
@prop("C30", 6)
def c30(c):
    w = "bpf::bandpass"
    lo, hi = real("lo"), real("hi")
    for n in (1, 2, 4, 8, 3) + ((5, 16) if c.thorough else ()):
        for fs in (K(8), K(100), nat("fs", 1)):
            def want(p, j):
                xs = [X(p * n + t) for t in range(n)]
                out = ZERO
                for k in range(n // 2 + 1):
                    f = T.div(fs * k, K(n))
                    keep = (ONE - T.pos(lo - f)) * (ONE - T.pos(f - hi))
                    cr = sum((xs[t] * T.cos(rt(k * t, n)) for t in range(n)), ZERO)
                    ci = sum((xs[t] * T.sin(rt(k * t, n)) for t in range(n)), ZERO)
                    g = 1 if k == 0 or 2 * k == n else 2
                    out = out + keep * (cr * T.cos(rt(k * j, n)) + ci * T.sin(rt(k * j, n))).scale(F(g, n))
                return out

            def f():
                s = c.stream(w, [lo, hi, src("x"), fs, K(n)])
                if s.length() is not INF:
                    raise Bad("the filtered stream of an endless signal ends", w)
                p = T.fresh("p", lo=0)
                for j in range(n):
                    c.same(s.at(p * n + j), want(p, j), what="sample %d of block p" % j, where=w)
            c.ob("blocks of %d at rate %s" % (n, fs), w, guarded(f), sec=120)

            def fin():
                s = c.stream(w, [lo, hi, src("x", K(2 * n)), fs, K(n)])
                c.items(s, lambda i: want(K(int(i.cval()) // n), int(i.cval()) % n), K(2 * n), what="filtered", where=w)
            if n <= 4 and fs.is_const():
                c.ob("two blocks of %d at rate %s" % (n, fs), w, guarded(fin), sec=120)


    # the same in terms of the transforms themselves, for every block length
    h = nat("h", 1)
    for n, lab in ((h * 2, "even"), (h * 2 + 1, "odd"), (K(70000), "70000"), (K(4096), "4096")):
        def anyn():
            fs = nat("fs", 1)
            s = c.stream(w, [lo, hi, src("x"), fs, n])
            if not isinstance(s, V.Seq):
                raise T.Undecided("no closed form")
            p, j = T.fresh("p", lo=0), T.fresh("j", lo=0, hi=n - 1)
            blk = V.gen(n, lambda t: X(p * n + t))

            def bin_(k):
                f = T.div(fs * k, n)
                keep = (ONE - T.pos(lo - f)) * (ONE - T.pos(f - hi))
                return V.cplx(keep * T.app("rfft_re", n, blk, k), keep * T.app("rfft_im", n, blk, k))
            want = T.div(T.app("irfft", n, V.gen(T.idiv(n, TWO) + 1, bin_), j), n)
            c.same(s.at(p * n + j), want, what="sample j of block p", where=w)
        c.ob("blocks of any %s length" % lab if "0" not in lab else "blocks of %s" % lab, w, guarded(anyn), sec=30)


def rt(k, N):
    return T.const(F(2 * (k % N), N)) * PI


# ------------------------------------------------------------------ C33
def scrambled(b, p, L=INF):
    """the time-domain block p (ten samples)"""
    z = T.fresh("z", isint=False)
    f = lambda v: v * v * v * 3 - v * 2
    ch = lambda k: f(T.iterate(z, f(z), T.const(F(1, 2)), T.P(k)))
    pre = [V.cplx(ch(p * 8), ZERO)]
    for i in range(1, 8):
        k = p * 7 + (i - 1)
        s = nrz(b(k)) if L is INF or int(k.cval()) < L else ZERO
        pre.append(V.cplx(ch(p * 8 + i) * s, ZERO))
    return pre


ORDERS = (("unpermuted", [list(range(8))]),
          ("permuted differently block by block", [[3, 0, 7, 5, 1, 6, 2, 4], [7, 6, 5, 4, 3, 2, 1, 0], [1, 2, 3, 4, 5, 6, 7, 0]]))


@prop("C33", 6)
def c33(c):
    tx = "fh_ofdm_dcsk::tx_baseband_fh_ofdm_dcsk_signal"

    def blocks(s, p, L=INF):
        """-> the ten samples the block must consist of, read off the permutation the source draws"""
        first = s.at(p * 10 + 2)
        ps = [A for A in (T.ATOMS[a] for a in T.atoms_rec(first)) if A.kind == "app" and A.args[0] == "perm"]
        if not ps:
            un = uninterpreted(first)
            if un:
                raise T.Undecided("sample depends on %s" % sorted(un)[:4])
            raise Bad("the carriers are not permuted", tx, got=first)
        A = ps[0]
        kind, sd, fi, la, n, i = A.args[1:]
        if any(B_.args[1:6] != A.args[1:6] for B_ in ps):
            raise Bad("a block mixes several permutations", tx, got=first)
        if n is not K(8):
            raise Bad("the permutation does not cover the eight carriers", tx, got=A)
        if not sd.is_const() or int(sd.cval()) != 64:
            raise Bad("the carrier permutation is not drawn from the fixed seed", tx, got=sd)
        if not (la - p).is_zero():
            raise Bad("block p does not use the p-th permutation", tx, got=la)
        pm = [T.app("perm", kind, sd, fi, la, n, K(j), isint=True, nonneg=True) for j in range(8)]
        for q in pm:
            T.BOUNDS.setdefault(T.the_atom(q).id, (ZERO, K(7)))
        pre = V.lit(scrambled(B, p, L))
        hop = [V.norm_val(pre.at(q)) for q in pm]
        x = M.dft(V.lit(hop[4:] + hop[:4]), K(8), "inv")
        out = []
        for r in range(10):
            z = x.at(K((r - 2) % 8))
            out.append(V.cplx(z.fields[0].scale(F(1, 8)), z.fields[1].scale(F(1, 8))))
        return out

    def base():
        s = c.stream(tx, [bits()])
        if s.length() is not INF:
            raise Bad("the signal of an endless message ends", tx, got=s.length())
        p = T.fresh("p", lo=0)
        want = blocks(s, p)
        for r in range(10):
            c.same(s.at(p * 10 + r), want[r], what="sample %d of a block" % r, where=tx)
    c.ob("baseband blocks of an endless message", tx, guarded(base), sec=200)
    for L in (0, 1, 7) if not c.thorough else (0, 1, 3, 6, 7, 8, 14):
        nb = -(-L // 7)

        def fin():
            s = c.stream(tx, [bits(K(L))])
            want = []
            for q in range(nb):
                want += blocks(s, K(q), L)
            c.items(s, lambda n: want[int(n.cval())], K(10 * nb), what="tx", where=tx)
        c.ob("baseband blocks of %d bits" % L, tx, guarded(fin), sec=200)
    rx = "fh_ofdm_dcsk::rx_baseband_fh_ofdm_dcsk_signal"
    for name, ps in ORDERS:
        def receive():
            def chosen(log):
                def f(kind, seed, step, n):
                    log.append((kind, seed, step, n))
                    if n != 8:
                        raise T.Undecided("a permutation of %d items" % n)
                    return ps[step % len(ps)]
                return f
            drawn, sent = [], []
            z = Stream(V.gen(INF, lambda i: V.cplx(T.elem("zr", i), T.elem("zi", i))))
            got = c.drive(rx, [z], first=21, chosen=chosen(drawn))
            c.drive(tx, [bits()], first=21, chosen=chosen(sent))
            if not sent:
                raise T.Undecided("how the transmitter permutes the carriers")
            if drawn[:2] != sent[:2]:
                raise Bad("the receiver does not undo the permutations of the transmitter", rx, got=drawn[:2], want=sent[:2])
            for q in range(3):
                y = M.dft(V.lit([V.cplx(T.elem("zr", K(q * 10 + 2 + t)), T.elem("zi", K(q * 10 + 2 + t))) for t in range(8)]), K(8), "fwd")
                car = [None] * 8
                for t in range(8):
                    car[ps[q % len(ps)][t]] = V.norm_val(y.at(K((t + 4) % 8))).fields
                for t in range(1, 8):
                    # the sign of the correlation with the reference carrier
                    r = car[0][0] * car[t][0] + car[0][1] * car[t][1]
                    c.same(got.xs[q * 7 + t - 1], ONE - T.pos(-r), what="bit %d of block %d" % (t - 1, q), where=rx)
        c.ob("received bits correlate the unscrambled carriers with the reference, %s" % name, rx, guarded(receive), sec=200)
    fc = FC()
    for Fs, R in ((32, 16), (16, 16)) + (((48, 16),) if c.thorough else ()):
        m = Fs // R
        w = "fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal_2"

        def pb():
            s = c.stream(w, [bits(), K(Fs), K(R), fc])
            if s.length() is not INF:
                raise Bad("the signal of an endless message ends", w, got=s.length())
            bb = c.stream(tx, [bits()])
            p = T.fresh("p", lo=0)
            for r in range(10):
                for j in sorted({0, m - 1}):
                    n = p * (10 * m) + (r * m + j)
                    a, b = bb.at(p * 10 + r).fields
                    want = a * T.cos(phase(fc, n, K(Fs))) + b * T.sin(phase(fc, n, K(Fs)))
                    c.same(s.at(n), want, what="sample %d of a block" % (r * m + j), where=w)
        c.ob("passband samples, fs=%d rate=%d" % (Fs, R), w, guarded(pb), sec=200)
        for lo, hi, N in ((4, 8, 2),) + (((2, 8, 1),) if c.thorough else ()):
            w2 = "fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal"

            def hopd():
                s = c.stream(w2, [bits(), K(lo), K(hi), K(N), K(Fs), K(R)])
                if s.length() is not INF:
                    raise Bad("the signal of an endless message ends", w2, got=s.length())
                bb = c.stream(tx, [bits()])
                h = hops(c, K(lo), K(hi), N, K(64))
                p = T.fresh("p", lo=0)
                for r in range(10):
                    for j in sorted({0, m - 1}):
                        n = p * (10 * m) + (r * m + j)
                        a, b = bb.at(p * 10 + r).fields
                        fq = at(h, p * 10 + r)
                        want = a * T.cos(phase(fq, n, K(Fs))) + b * T.sin(phase(fq, n, K(Fs)))
                        c.same(s.at(n), want, what="sample %d of a block" % (r * m + j), where=w2)
            c.ob("hopped passband samples, fs=%d rate=%d, band %d-%d, %d frequencies" % (Fs, R, lo, hi, N), w2, guarded(hopd), sec=200)


# ------------------------------------------------------------------ C25
@prop("C25", 6)
def c25_energy(c):
    L = nat("L", 1)
    w = "energy_detector"
    c.ob("the energy detector reports 10 log10 of the energy", w, guarded(lambda: c.same(
        c.value(w, [V.gen(L, lambda i: X(i))]), T.log10(ssum(L, lambda k: X(k) * X(k))) * 10, what=w, where=w)))
    w = "willie::energy_detector"
    n0 = real("n0")
    c.ob("the covert detector compares the root mean square", w, guarded(lambda: c.same(
        c.value(w, [V.gen(L, lambda i: X(i)), n0]),
        T.pos(T.sqrt(T.div(ssum(L, lambda k: X(k) * X(k)), L)) - n0), what=w, where=w)))
