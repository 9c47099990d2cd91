"""C01-C04: the stream adaptors as index maps."""
from ..check import *
from .. import models as M

ZERO, ONE = T.const(0), T.const(1)
IT = "iter::Iter::"


def ms(c, sym=True):
    out = [("m", T.var("m", lo=1))] if sym else []
    return out + [(str(i), K(i)) for i in ((1, 2, 3, 5) if not c.thorough else (1, 2, 3, 4, 5, 6, 7, 8))]


# around the widths of the machine integers a counter could be narrowed to
WIDE = [(str(i), K(i)) for i in (256, 65537, (1 << 32) + 3)]


def residues(m, c):
    """n = m*p + r: every index, by residue class, for literal m; one generic residue otherwise"""
    if m.is_const() and m.cval() < 100:
        return [(m, K(i)) for i in range(int(m.cval()))]
    return [(m, T.fresh("r", lo=0, hi=m - 1))]


LENS = (0, 1, 2, 3, 4, 5, 6, 7)


@prop("C01")
def c01(c):
    w = IT + "inflate"
    for lab, m in ms(c) + WIDE:
        def f():
            s = c.stream(w, [src("x"), m])
            c.items(s, lambda n: X(T.idiv(n, m)), what="inflate(%s)" % lab, where=w, split=residues(m, c))
        c.ob("inflate index map copies=%s" % lab, w, f)
    for L in LENS:
        for k in (1, 2, 3):
            def f():
                s = c.stream(w, [src("x", K(L)), K(k)])
                c.items(s, lambda n: X(T.idiv(n, K(k))), K(L * k), what="inflate", where=w)
            c.ob("inflate of %d items, copies=%d" % (L, k), w, f)
    w2 = IT + "take_every"
    for lab, m in ms(c) + WIDE:
        def f():
            s = c.stream(w2, [src("x"), m])
            c.items(s, lambda n: X(n * m), what="take_every(%s)" % lab, where=w2)
        c.ob("take_every index map frequency=%s" % lab, w2, f)
    for L in LENS:
        for k in (1, 2, 3):
            def f():
                s = c.stream(w2, [src("x", K(L)), K(k)])
                c.items(s, lambda n: X(n * k), K(-(-L // k)), what="take_every", where=w2)
            c.ob("take_every of %d items, frequency=%d" % (L, k), w2, f)
    # decimation undoes repetition
    for lab, m in ms(c) + WIDE:
        def f():
            s = c.stream(w, [src("x"), m])
            c.items(c.stream(w2, [Stream(s), m]), X, what="take_every after inflate", where=w2)
        c.ob("take_every(inflate) is the identity, m=%s" % lab, w2, f)


@prop("C02")
def c02(c):
    for nm in ("chunks", "wchunks"):
        w = IT + nm
        for lab, m in ms(c) + WIDE:
            def f():
                s = c.stream(w, [src("x"), m])
                c.items(s, lambda n: V.gen(m, lambda j: X(n * m + j)), what=nm, where=w)
            c.ob("%s(%s) of an endless stream" % (nm, lab), w, f)
        for L in LENS:
            for k in (1, 2, 3, 4):
                def f():
                    s = c.stream(w, [src("x", K(L)), K(k)])
                    want = []
                    for i in range(0, L, k):
                        ch = [X(j) for j in range(i, min(i + k, L))]
                        if nm == "wchunks":
                            ch += [ZERO] * (k - len(ch))
                        want.append(V.lit(ch))
                    c.items(s, lambda n: want[int(n.cval())], K(len(want)), what=nm, where=w)
                c.ob("%s of %d items in %ds" % (nm, L, k), w, f)


def vec(i, n=2, name="x"):
    return V.lit([T.elem(name + str(j), T.P(i)) for j in range(n)])


def vsrc(L, n=2):
    return Stream(V.gen(L, lambda i: vec(i, n)))


def run_sum(name, n):
    """sum of items 0..=n"""
    return T.msum_of(n + 1, lambda k: T.elem(name, k))


def ssum(n, f):
    v = T.fresh("s", lo=0, hi=n - 1)
    return T.msum(n, v, f(v))


@prop("C03")
def c03(c):
    w = IT + "integrate"

    def f():
        s = c.stream(w, [src("x")])
        c.items(s, lambda n: ssum(n + 1, X), what="integrate", where=w)
    c.ob("running sum of an endless stream", w, f)
    for L in LENS[:6]:
        def f():
            s = c.stream(w, [src("x", K(L))])
            c.items(s, lambda n: sum((X(i) for i in range(int(n.cval()) + 1)), ZERO), K(L), what="integrate", where=w)
        c.ob("running sum of %d items" % L, w, f)
    w = IT + "nintegrate"
    for N in (1, 2, 3, 12):
        for L in (0, 1, 2, 4):
            def f():
                s = c.stream(w, [vsrc(K(L), N)], {"N": N})
                c.items(s, lambda n: V.lit([sum((T.elem("x%d" % j, K(i)) for i in range(int(n.cval()) + 1)), ZERO) for j in range(N)]),
                        K(L), what="nintegrate", where=w)
            c.ob("componentwise running sum, %d components, %d items" % (N, L), w, f)
    for nm, N in (("integrate_and_dump", 0), ("nintegrate_and_dump", 1), ("nintegrate_and_dump", 2), ("nintegrate_and_dump", 4), ("nintegrate_and_dump", 12)):
        w = IT + nm
        for lab, m in ms(c) + WIDE:
            def f():
                if N:
                    s = c.stream(w, [vsrc(INF, N), m], {"N": N})
                    c.items(s, lambda n: V.lit([ssum(m, lambda k: T.elem("x%d" % j, n * m + k)) for j in range(N)]), what=nm, where=w)
                else:
                    s = c.stream(w, [src("x"), m])
                    c.items(s, lambda n: ssum(m, lambda k: X(n * m + k)), what=nm, where=w)
            c.ob("%s(%s)%s of an endless stream" % (nm, lab, " N=%d" % N if N else ""), w, f)
        for L in LENS:
            for k in (1, 2, 3) if L < 7 else (1, 2, 3, 4, 5, 6):
                def f():
                    if N:
                        s = c.stream(w, [vsrc(K(L), N), K(k)], {"N": N})
                        c.items(s, lambda n: V.lit([sum((T.elem("x%d" % j, n * k + i) for i in range(k)), ZERO) for j in range(N)]),
                                K(L // k), what=nm, where=w)
                    else:
                        s = c.stream(w, [src("x", K(L)), K(k)])
                        c.items(s, lambda n: sum((X(n * k + i) for i in range(k)), ZERO), K(L // k), what=nm, where=w)
                c.ob("%s of %d items by %d%s" % (nm, L, k, " N=%d" % N if N else ""), w, f)
    w = IT + "scale"
    g = real("g")

    def f():
        s = c.stream(w, [src("x"), g])
        c.items(s, lambda n: g * X(n), what="scale", where=w)
    c.ob("scale multiplies every item", w, f)
    for L in (0, 1, 3):
        def f():
            s = c.stream(w, [src("x", K(L)), g])
            c.items(s, lambda n: g * X(n), K(L), what="scale", where=w)
        c.ob("scale of %d items" % L, w, f)


@prop("C04")
def c04(c):
    w = IT + "convolve"
    for F in (1, 2, 3, 4, 70):
        for L in (0, 1, 2, 3, 5, 6) if F < 70 else (2, 72):
            def want(n):
                n = int(n.cval())
                return sum((X(j) * T.elem("h", K(n - j)) for j in range(L) if 0 <= n - j < F), ZERO)

            def f():
                s = c.stream(w, [src("x", K(L)), arr("h", F)])
                c.items(s, want, K(L + F - 1 if L else 0), what="convolve", where=w)
            c.ob("convolve of %d items with %d taps" % (L, F), w, f)

        if F == 70:
            continue

        def f():
            s = c.stream(w, [src("x"), arr("h", F)])
            for i in range(F - 1):
                c.same(s.at(K(i)), sum((X(i - k) * T.elem("h", K(k)) for k in range(i + 1)), ZERO), what="convolve item %d" % i, where=w)
            p = T.fresh("p", lo=0)
            c.same(s.at(p + F - 1), sum((X(p + (F - 1 - k)) * T.elem("h", K(k)) for k in range(F)), ZERO), what="convolve item n", where=w)
        c.ob("convolve of an endless stream with %d taps" % F, w, f)
    # a filter longer than any bound a delay line might be given: only its outer taps differ from 0
    for F in (1100,) + ((4200,) if c.thorough else ()):
        def f():
            taps = {k: T.elem("h", K(k)) for k in (0, 1, 63, 1023, 1024, F - 2, F - 1) if k < F}
            s = c.stream(w, [src("x"), V.lit([taps.get(i, ZERO) for i in range(F)])])
            for n in (0, 62, F - 2, F - 1, F, F + 40):
                c.same(s.at(K(n)), sum((X(n - k) * h for k, h in taps.items() if k <= n), ZERO), what="convolve item %d" % n, where=w)
        c.ob("convolve with %d taps" % F, w, f, sec=200)
    w = IT + "nonvolve"
    for N in (1, 2, 12):
        for F in (1, 2, 3, 20) if N == 1 else (1, 2, 3) if N < 12 else (2,):
            for L in (0, 1, 2, 4, 5) if F < 20 else (22,):
                def want(n):
                    n = int(n.cval())
                    return V.lit([sum((T.elem("x%d" % q, K(j)) * T.elem("h", K(n - j)) for j in range(L) if 0 <= n - j < F), ZERO)
                                  for q in range(N)])

                def f():
                    s = c.stream(w, [vsrc(K(L), N), arr("h", F)], {"N": N})
                    c.items(s, want, K(L + F - 1 if L else 0), what="nonvolve", where=w)
                c.ob("nonvolve of %d items, %d components, %d taps" % (L, N, F), w, f)
