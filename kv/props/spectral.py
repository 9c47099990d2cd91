"""C25, C26: the spectral correlation matrix and the detectors computed from it."""
from .. import prove
from ..check import *
from .modems import guarded, ssum, ZERO, ONE, TWO, PI

H0, H1 = T.const(Fraction(54, 100)), T.const(Fraction(46, 100))


def win(i, n):
    return H0 - H1 * T.cos(T.const(Fraction(2 * (i % n), n)) * PI)


def rot(k, n):
    a = T.const(Fraction(2 * (k % n), n)) * PI
    return T.cos(a), -T.sin(a)


def cmul(a, b):
    return a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]


def entry(n, m, q, k):
    """entry (q, k) of the spectral correlation of x with n by m resolution, written out"""
    qs, ks = (q + -(-n // 2)) % n, (k + -(-m // 2)) % m
    re = im = ZERO
    for i in range(n):
        a = b = ZERO
        for j in range(m):
            c, s = rot(ks * j, m)
            y = X(i + j) * win(j, m)
            a, b = a + y * c, b + y * s
        # the phase of the window's position
        t = T.const(Fraction(2 * ((k * 2 - m) * i % (2 * m)), 2 * m)) * PI
        z = cmul(cmul((a, b), (T.cos(t), -T.sin(t))), rot(qs * i, n))
        g = X(m // 2 + i) * win(i, n)
        re, im = re + z[0] * g, im + z[1] * g
    return V.cplx(re, im)


def body(v):
    if isinstance(v, V.Agg) and v.name == "NdArray" and v.targs == 2:
        return v.fields[0]
    raise T.Undecided("not a matrix value")


def cells(c, v, rows, cols, want, where, only=None):
    b = body(v)
    n = b.length()
    if not (T.P(n) - rows).is_zero():
        raise Bad("the matrix has a different number of rows", where, got=n, want=rows)
    for q in range(rows):
        r = V.norm_val(b.at(K(q)))
        if not (T.P(V.seq_len(r)) - cols).is_zero():
            raise Bad("the matrix has a different number of columns", where, got=V.seq_len(r), want=cols)
        for k in range(cols):
            if only is not None and (q, k) not in only:
                continue
            c.same(V.norm_val(V.seq_at(r, K(k))), want(q, k), what="entry (%d, %d)" % (q, k), where=where)


SIZES = [(4, 2), (8, 2), (8, 4)]


@prop("C26", 3)
def c26(c):
    w = "ssca::ssca_base"
    for n, m in SIZES + ([(6, 2), (6, 4), (16, 2)] if c.thorough else []):
        for extra in (0, 3):
            if extra and n > 4:
                continue
            c.ob("spectral correlation, %d by %d resolution, %d samples" % (n, m, n + m + extra), w, guarded(lambda: cells(
                c, c.value(w, [V.gen(K(n + m + extra), lambda i: X(i)), K(n), K(m)]), n, m,
                lambda q, k: entry(n, m, q, k), w)), sec=200)
    # every window position enters every entry: a few of them are enough
    for n, m in ((72, 2), (20, 8), (9, 3)) + (((130, 4),) if c.thorough else ()):
        some = [(q, k) for q in (0, 1, n // 2, n - 1) for k in (0, m - 1)]

        def large():
            save, prove.WIDE[0] = prove.WIDE[0], 160
            try:
                cells(c, c.value(w, [V.gen(K(n + m), lambda i: X(i)), K(n), K(m)]), n, m, lambda q, k: entry(n, m, q, k), w, some)
            finally:
                prove.WIDE[0] = save
        c.ob("spectral correlation, %d by %d resolution, %d entries" % (n, m, len(some)), w, guarded(large), sec=200)
    w = "ssca::ssca_mapped"
    for n, m in SIZES + [(16, 8), (64, 16)]:
        at = {}
        for q in range(n):
            for k in range(m):
                f = Fraction(k, 2 * m) - Fraction(q, 2 * n)
                a = Fraction(k, m) + Fraction(q, n)
                at[int(m * (f + Fraction(1, 2))), int(n * a)] = (q, k)
        assert len(at) == n * m

        def f():
            I = c.interp()
            I.stubs = {"ssca::ssca_base": stub(n, m)}
            c.has(w) or c.call(w, [])
            try:
                v, st, I = c.call(w, [V.gen(K(n + m), lambda i: X(i)), K(n), K(m)], I=I)
            except interp.Diverge:
                raise Bad("%s panics on every path" % w, w)
            if I.stubbed:
                z = lambda q, k: S(q, k)
            else:
                z = lambda q, k: entry(n, m, q, k)
            check_args(c, I, [V.gen(K(n + m), lambda i: X(i)), K(n), K(m)], w)
            cells(c, v, m + 1, 2 * n + 1, lambda p, q: z(*at[p, q]) if (p, q) in at else V.cplx(ZERO, ZERO), w)
        c.ob("entries at their frequency and cycle frequency, %d by %d" % (n, m), w, guarded(f), sec=200)


def S(i, j):
    return V.cplx(T.elem("Sre", T.P(i), T.P(j)), T.elem("Sim", T.P(i), T.P(j)))


def matrix(n, m):
    return V.Agg("NdArray", (V.gen(K(n), lambda i: V.gen(K(m), lambda j: S(i, j))),), 2)


def stub(n, m):
    return lambda I, st, a: matrix(n, m)


def check_args(c, I, want, where):
    for p, a in I.stubbed:
        for i, (g, x) in enumerate(zip(a, want)):
            c.same(g, x, what="argument %d of %s" % (i, p), where=where)


def mag(n, m, i, j):
    a, b = S(i, j).fields
    return a * a + b * b


def peak(xs):
    return T.log10(T.app("seqmax", V.Seq(xs.segs, "vec") if V.is_seq(xs) else V.lit(xs))) * 10


@prop("C25", 6)
def c25(c):
    for n, m in ((2, 2), (3, 2), (1, 3)) + (((4, 4),) if c.thorough else ()):
        cut = peak([mag(n, m, i, j) for i in range(n) for j in range(m)])
        dcs = peak([T.div(sum((mag(n, m, i, j) for i in range(n)), ZERO), mag(n, m, 0, j)) for j in range(m)])
        for nm, want in (("max_cut_detector", cut), ("dcs_detector", dcs)):
            w = nm + "_sxf"
            c.ob("%s of a %d by %d matrix" % (w, n, m), w, guarded(lambda: c.same(
                c.value(w, [matrix(n, m)]), want, what=w, where=w)))

            def f():
                signal_form(c, nm, stub(n, m), lambda: want, False)
            c.ob("%s of a signal with a %d by %d correlation" % (nm, n, m), nm, f)
    rows, cols = K(4096), K(64)

    def cut():
        return peak(V.gen(rows * cols, lambda i: mag(0, 0, T.idiv(i, cols), T.rem(i, cols))))

    def dcs():
        return peak(V.gen(cols, lambda j: T.div(ssum(rows, lambda i: mag(0, 0, i, j)), mag(0, 0, 0, j))))
    for nm, want in (("max_cut_detector", cut), ("dcs_detector", dcs)):
        c.ob("%s of a signal" % nm, nm, guarded(lambda: signal_form(
            c, nm, lambda I, st, a: V.Agg("NdArray", (V.gen(a[1], lambda i: V.gen(a[2], lambda j: S(i, j))),), 2), want, True)))


def signal_form(c, nm, summary, want, full):
    """the detector applied to the signal's spectral correlation; a summary of other than the real size says nothing
    about panics"""
    I = c.interp()
    I.stubs = {"ssca::ssca_base": summary}
    L = nat("L", 4096 + 64)
    sig = V.gen(L, lambda i: X(i))
    try:
        v, st, I = c.call(nm, [sig], I=I)
    except interp.Diverge:
        if full:
            raise
        raise T.Undecided("depends on the size of the correlation matrix")
    if not I.stubbed:
        raise T.Undecided("no call of the spectral correlation")
    check_args(c, I, [sig, K(4096), K(64)], nm)
    if full:
        if (v - want()).is_zero():
            return
        raise T.Undecided("closed forms over 4096 by 64 entries not identical")
    c.same(v, want(), what=nm, where=nm)
