"""OFDM, frequency hopping, chaos shift keying, FSK/FM, chirps."""
from ..check import *
from .. import models as M
from .modems import nrz, phase, roundtrip, guarded, litsum, ssum, ZERO, ONE, TWO, PI, FC

R2 = T.sqrt(TWO)


def carriers(S, P):
    back = (P - 1) // 2
    front = P - 1 - back
    return [c for c in range(front, S - back) if c != S // 2]


def rot(k, N):
    """angle 2 pi k / N"""
    return T.const(Fraction(2 * (k % N), N)) * PI


def at(seq, i):
    return V.norm_val(seq.at(i))


def block(S, P, data):
    """one OFDM symbol with prefix from its data symbols (list of complex values), written out"""
    return [block1(S, P, data, r) for r in range(S + S // 4)]


def block1(S, P, data, r):
    X = {}
    for c, d in zip(carriers(S, P), data):
        X[(c + S // 2) % S] = d
    t = (r - S // 4) % S
    re, im = [], []
    for k, d in X.items():
        a, b = d.fields
        re += [a * T.cos(rot(k * t, S)), -b * T.sin(rot(k * t, S))]
        im += [a * T.sin(rot(k * t, S)), b * T.cos(rot(k * t, S))]
    return V.cplx(T.total(re).scale(Fraction(1, S)), T.total(im).scale(Fraction(1, S)))


LAYOUT = [(4, 1), (4, 2), (8, 1), (8, 2), (8, 3), (8, 4)]
LAYOUT_T = LAYOUT + [(8, 5), (16, 4), (16, 3)]


def sym(i):
    return V.cplx(T.elem("re", T.P(i)), T.elem("im", T.P(i)))


@prop("C11", 30)
def c11(c):
    tx, rx = "ofdm::tx_baseband_ofdm_signal", "ofdm::rx_baseband_ofdm_signal"
    for S, P in LARGE:
        large(c, tx, rx, S, P)
    for S, P in LAYOUT_T if c.thorough else LAYOUT:
        D = S - P
        W = S + S // 4
        a = [K(S), K(P)]
        lab = "%d carriers, %d pilots" % (S, P)
        c.ob("modulation, " + lab, tx, guarded(lambda: modulation(c, tx, S, P, D, W, a)), sec=120)
        c.ob("inverse, " + lab, rx, guarded(lambda: roundtrip(
            c, tx, rx, csrc(), a, a, sym, what="rx(tx(symbols))", split=[(K(D), K(i)) for i in range(D)])), sec=120)
        c.ob("demodulation, " + lab, rx, guarded(lambda: demodulation(c, rx, S, P, D, W, a)), sec=120)
        for L in sorted({0, 1, D - 1, D, D + 1, 2 * D}):
            if S >= 8 and P == 1 and L > D and not c.thorough:
                continue
            nb = -(-L // D)
            pad = lambda i: sym(i) if i < L else V.cplx(ZERO, ZERO)
            c.ob("inverse, %s, %d symbols" % (lab, L), rx, guarded(lambda: roundtrip(
                c, tx, rx, csrc(K(L)), a, a, lambda n: pad(int(n.cval())), K(nb * D), what="rx(tx(symbols))")), sec=120)
        L = D + 1

        def f():
            s = c.stream(tx, [csrc(K(L))] + a)
            want = block(S, P, [sym(i) for i in range(D)]) + block(S, P, [sym(D)])
            c.items(s, lambda n: want[int(n.cval())], K(2 * W), what="tx", where=tx)
        if S < 8 or P > 1 or c.thorough:
            c.ob("modulation of a partial block, " + lab, tx, guarded(f), sec=120)


# enough carriers and pilots to exceed bytes and short tables
LARGE = [(264, 70), (66, 3)]


def large(c, tx, rx, S, P):
    """a few samples of long blocks, the transform left standing"""
    D, W, a = S - P, S + S // 4, [K(S), K(P)]
    lab = "%d carriers, %d pilots" % (S, P)
    cs = carriers(S, P)

    def mod():
        s = c.stream(tx, [csrc()] + a)
        p = T.fresh("p", lo=0)
        sp = [V.cplx(ZERO, ZERO)] * S
        for j, ca in enumerate(cs):
            sp[(ca + S // 2) % S] = sym(p * D + j)
        w = M.dft(V.lit(sp), K(S), "inv")
        for r in (0, S // 4 - 1, S // 4, W - 1):
            re, im = w.at(K((r - S // 4) % S)).fields
            c.same(s.at(p * W + r), V.cplx(re.scale(Fraction(1, S)), im.scale(Fraction(1, S))), what="sample %d of block p" % r, where=tx)
    c.ob("modulation, " + lab, tx, guarded(mod))

    def part():
        s = c.stream(tx, [csrc(K(2))] + a)
        sp = [V.cplx(ZERO, ZERO)] * S
        for j, ca in enumerate(cs[:2]):
            sp[(ca + S // 2) % S] = sym(j)
        w = M.dft(V.lit(sp), K(S), "inv")
        L = s.length()
        if L is not K(W):
            raise Bad("two symbols do not make one block", tx, got=L, want=W)
        for r in (0, W - 1):
            re, im = w.at(K((r - S // 4) % S)).fields
            c.same(s.at(K(r)), V.cplx(re.scale(Fraction(1, S)), im.scale(Fraction(1, S))), what="sample %d" % r, where=tx)
    c.ob("modulation of two symbols, " + lab, tx, guarded(part))

    def demod():
        s = c.stream(rx, [csrc()] + a)
        p = T.fresh("p", lo=0)
        w = M.dft(V.lit([sym(p * W + S // 4 + t) for t in range(S)]), K(S), "fwd")
        for j in sorted({0, D // 2 - 1, D // 2, D - 1}):
            c.same(s.at(p * D + j), w.at(K((cs[j] + S // 2) % S)), what="symbol %d of block p" % j, where=rx)
    c.ob("demodulation, " + lab, rx, guarded(demod))


def modulation(c, tx, S, P, D, W, a):
    s = c.stream(tx, [csrc()] + a)
    p = T.fresh("p", lo=0)
    want = block(S, P, [sym(p * D + i) for i in range(D)])
    if s.length() is not INF:
        raise Bad("the modulated stream of an endless input ends", tx, got=s.length())
    for r in range(W):
        c.same(s.at(p * W + r), want[r], what="sample %d of block p" % r, where=tx)


def demodulation(c, rx, S, P, D, W, a):
    s = c.stream(rx, [csrc()] + a)
    p = T.fresh("p", lo=0)
    for j, ca in enumerate(carriers(S, P)):
        k = (ca + S // 2) % S
        re = im = ZERO
        for t in range(S):
            x, y = sym(p * W + S // 4 + t).fields
            re = re + x * T.cos(rot(k * t, S)) + y * T.sin(rot(k * t, S))
            im = im - x * T.sin(rot(k * t, S)) + y * T.cos(rot(k * t, S))
        c.same(s.at(p * D + j), V.cplx(re, im), what="symbol %d of block p" % j, where=rx)


@prop("C16", 4)
def c16(c):
    tx = "ofdm::tx_ofdm_qpsk_signal"
    fc = FC()
    for S, P, F, R in [(4, 1, 64, 16), (8, 2, 48, 16), (8, 3, 16, 16), (8, 2, 32, 16)] + ([(16, 4, 64, 32)] if c.thorough else []):
        D, W, m = S - P, S + S // 4, F // R

        def f():
            s = c.stream(tx, [bits(), K(S), K(P), K(F), K(R), fc])
            if s.length() is not INF:
                raise Bad("the modulated stream of an endless message ends", tx, got=s.length())
            p = T.fresh("p", lo=0)
            q = lambda i: V.cplx(nrz(B(i * 2)) * R2, nrz(B(i * 2 + 1)) * R2)
            want = block(S, P, [q(p * D + i) for i in range(D)])
            for r in range(W):
                for j in {0, 1, m - 1} if m > 1 else {0}:
                    n = p * (W * m) + (r * m + j)
                    re, im = want[r].fields
                    w = re * T.cos(phase(fc, n, K(F))) - im * T.sin(phase(fc, n, K(F)))
                    c.same(s.at(n), w, what="sample %d of block p" % (r * m + j), where=tx)
        c.ob("waveform, %d carriers, %d pilots, fs=%d rate=%d" % (S, P, F, R), tx, guarded(f), sec=120)


def hop_freq(lo, hi, N, seed, k):
    """the k-th frequency of the pattern"""
    s, st, I = None, None, None


def chaos(k, x0):
    """logistic map with mu = 3.9 applied k+1 times to x0"""
    mu = T.const(Fraction(39, 10))
    w = T.fresh("z", isint=False, nonneg=False)
    z = T.iterate(w, mu * w * (1 - w), x0, k)
    return mu * z * (1 - z)


X1, X2 = T.const(Fraction(1, 10)), T.const(Fraction(15, 100))


@prop("C13", 10)
def c13(c):
    tx, rx = "csk::tx_baseband_csk", "csk::rx_baseband_csk"
    c.ob("CSK sends the chosen map's iterate", tx, guarded(lambda: c.items(
        c.stream(tx, [bits()]), lambda n: T.ite(B(n), chaos(n, X1), chaos(n, X2)), what="tx", where=tx)))
    for L in (0, 1, 2, 4):
        c.ob("CSK of %d bits" % L, tx, guarded(lambda: c.items(
            c.stream(tx, [bits(K(L))]), lambda n: T.ite(B(n), chaos(n, X1), chaos(n, X2)), K(L), what="tx", where=tx)))
    c.ob("CSK decides for the closer map", rx, guarded(lambda: c.items(
        c.stream(rx, [src("x")]), lambda n: T.pos(T.absv(X(n) - chaos(n, X2)) - T.absv(X(n) - chaos(n, X1))), what="rx", where=rx)))

    def inv():
        s, st, I = c.call(tx, [bits()])
        v, st, I = c.call(rx, [s], I=I, st=st)
        n = T.fresh("n", lo=0)
        got = c.seq(v, st, I).at(n)
        gap = T.pos(T.absv(chaos(n, X1) - chaos(n, X2)))
        # wherever the two maps differ
        c.same(got * gap, B(n) * gap, what="rx(tx(bits))", where=rx)
    c.ob("CSK inverse wherever the maps differ", rx, guarded(inv))
    tx, rx = "dcsk::tx_baseband_dcsk", "dcsk::rx_baseband_dcsk"
    c.ob("DCSK sends reference and signed reference", tx, guarded(lambda: c.items(
        c.stream(tx, [bits()]), lambda n: T.ite(T.eqz(T.rem(n, TWO)), chaos(T.idiv(n, TWO), X1),
                                               chaos(T.idiv(n, TWO), X1) * nrz(B(T.idiv(n, TWO)))),
        what="tx", where=tx, split=[(TWO, ZERO), (TWO, ONE)])))
    for L in (0, 1, 2, 3):
        c.ob("DCSK of %d bits" % L, tx, guarded(lambda: c.items(
            c.stream(tx, [bits(K(L))]),
            lambda n: chaos(K(int(n.cval()) // 2), X1) * (ONE if int(n.cval()) % 2 == 0 else nrz(B(int(n.cval()) // 2))),
            K(2 * L), what="tx", where=tx)))
        c.ob("DCSK decision over %d samples" % (2 * L + 1), rx, guarded(lambda: c.items(
            c.stream(rx, [src("x", K(2 * L + 1))]), lambda n: T.pos(X(n * 2) * X(n * 2 + 1)), K(L), what="rx", where=rx)))
    c.ob("DCSK decides by the sign of the product", rx, guarded(lambda: c.items(
        c.stream(rx, [src("x")]), lambda n: T.pos(X(n * 2) * X(n * 2 + 1)), what="rx", where=rx)))

    def dinv():
        s, st, I = c.call(tx, [bits()])
        v, st, I = c.call(rx, [s], I=I, st=st)
        n = T.fresh("n", lo=0)
        got = c.seq(v, st, I).at(n)
        nz = T.pos(chaos(n, X1) * chaos(n, X1))
        c.same(got * nz, B(n) * nz, what="rx(tx(bits))", where=rx)
    c.ob("DCSK inverse wherever the reference is not zero", rx, guarded(dinv))


@prop("C15", 20)
def c15(c):
    fl, fh = FC(), real("fh", nonneg=True)
    sps, sr = nat("sps", 1), nat("sr", 1)
    grid = [(sps * sr, sr, sps, "any rate")] + [(K(F), K(R), K(F // R), "fs=%d rate=%d" % (F, R)) for F, R in
                                               [(48, 16), (64, 16), (40, 8), (16, 16)] + ([(96, 8), (44100, 11025)] if c.thorough else [])]
    for F, R, m, lab in grid:
        for nm, args, pick in (
                ("fsk::tx_bfsk_signal", [fl, fh], lambda b: T.ite(b, fh, fl)),
                ("fsk::tx_mfsk_signal", [fl, fh, nat("nf", 1)], lambda b: T.ite(b, fh, fl)),
                ("fsk::tx_fsk_signal", [V.lit([fh, fl])], lambda b: T.ite(b, fh, fl)),
                ("fm::tx_fsk", [fl], lambda b: fl * (1 + T.const(Fraction(1, 40)) * nrz(b)))):
            for L in (INF, K(0), K(1), K(2)):
                if L is not INF and not m.is_const():
                    continue
                c.ob("%s waveform, %s%s" % (nm, lab, "" if L is INF else ", %s bits" % L), nm, guarded(lambda: c.items(
                    c.stream(nm, [bits(L), F, R] + args),
                    lambda n: T.cos(phase(pick(B(T.idiv(n, m))), n, F)),
                    INF if L is INF else L * m, what="tx", where=nm,
                    split=[(m, K(i)) for i in range(int(m.cval()))] if L is INF and m.is_const() and m.cval() < 8 else None)))
        nm = "fm::tx_fm"
        kf = T.const(Fraction(1, 20))
        for L in (INF, K(0), K(1), K(3)):
            if L is not INF and not m.is_const():
                continue
            c.ob("%s waveform, %s%s" % (nm, lab, "" if L is INF else ", %s items" % L), nm, guarded(lambda: c.items(
                c.stream(nm, [src("x", L), F, R, fl]),
                lambda n: T.cos(phase(fl, n, F) + kf * ssum(n + 1, lambda k: X(T.idiv(k, m)))),
                INF if L is INF else L * m, what="tx", where=nm)))


@prop("C21", 12)
def c21(c):
    w = "fh_css::linear_chirp"
    f0, f1, bw, fc = real("f0"), real("f1"), real("bw"), real("fcen")
    r = real("rate", nonneg=True)
    S, sr = nat("S", 1), nat("r", 1)

    def sweep(a, b, rate, n, fs):
        t = T.div(n, fs)
        return T.cos(TWO * PI * (a + (b - a) * rate * t * T.const(Fraction(1, 2))) * t)
    for lab, rate, fs, m in [("whole samples per chirp", sr, S * sr, S)] + [
            ("fs=%d rate=%d" % (F, R), K(R), K(F), K(int(F / R))) for F, R in
            [(64, 16), (48, 16), (1000, 8), (16, 16), (44100, 900), (100, Fraction(5, 2)), (8, Fraction(1, 2)), (30, Fraction(15, 2))]]:
        ends = [(w, [rate, fs, f0, f1], f0, f1)]
        ends.append(("fh_css::linear_upchirp_centered", [rate, fc, bw, fs], fc - bw.scale(Fraction(1, 2)), fc + bw.scale(Fraction(1, 2))))
        ends.append(("fh_css::linear_downchirp_centered", [rate, fc, bw, fs], fc + bw.scale(Fraction(1, 2)), fc - bw.scale(Fraction(1, 2))))
        ends.append(("chirp", [rate, fs, f0, f1], f0, f1))
        for nm, args, a, b in ends:
            c.ob("%s, %s" % (nm, lab), nm, guarded(lambda: c.items(
                c.stream(nm, args) if nm != "chirp" else c.seq(*c.call(nm, args)),
                lambda n: sweep(a, b, rate, n, fs), m, what="chirp", where=nm)))
    w = "fh_css::tx_fh_css_signal"
    for F, R, lo, hi, N in [(64, 16, 8, 16, 4), (64, 16, Fraction(9, 2), Fraction(81, 4), 2), (48, 16, Fraction(33, 4), 16, 1),
                            (96, 16, 8, 32, 3), (64, 16, 4, 20, 40)]:
        m = F // R

        def f():
            s = c.stream(w, [bits(), K(F), K(R), K(lo), K(hi), K(N)])
            h = hops(c, K(lo), K(hi), N, K(64))
            if s.length() is not INF:
                raise Bad("the signal of an endless message ends", w, got=s.length())
            p = T.fresh("p", lo=0)
            half = T.const(Fraction(hi - lo) / (2 * N))
            for i in range(m):
                for j in range(N) if N < 20 else (0, 1, N - 1):
                    q = p * N + j
                    fq = at(h, q)
                    up = nrz(B(q))
                    # one chirp of one symbol, in the symbol's own time
                    x = sweep(fq - half * up, fq + half * up, K(R), K(i), K(F))
                    c.same(s.at(q * m + i), x, what="sample %d of a symbol" % i, where=w)
        c.ob("chirp spread spectrum, fs=%d rate=%d, band %s-%s, %d frequencies" % (F, R, lo, hi, N), w, guarded(f), sec=120)


def hops(c, lo, hi, N, seed):
    v, st, I = c.call("fh::HopTable::new", [lo, hi, K(N), seed])
    return c.seq(v, st, I)


@prop("C12", 10)
def c12(c):
    tx, rx = "fh::tx_fh_bpsk_signal", "fh::rx_fh_bpsk_signal"
    for F, R, lo, hi, N in [(64, 16, 8, 16, 4), (64, 16, Fraction(9, 2), Fraction(81, 4), 2), (48, 16, Fraction(33, 4), 16, 1),
                            (96, 16, 8, 32, 3), (64, 16, 4, 20, 40), (96, 16, 1, 40, 70)] + (
            [(64, 16, 8, 16, 5), (64, 16, Fraction(1, 4), Fraction(43, 2), 3), (128, 16, 10, 40, 8)] if c.thorough else []):
        m = F // R
        a = [K(lo), K(hi), K(N), K(F), K(R)]
        lab = "fs=%d rate=%d, band %s-%s, %d frequencies" % (F, R, lo, hi, N)

        def wave():
            s = c.stream(tx, [bits()] + a)
            h = hops(c, K(lo), K(hi), N, K(64))
            if s.length() is not INF:
                raise Bad("the signal of an endless message ends", tx, got=s.length())
            p = T.fresh("p", lo=0)
            for i in range(m):
                for j in range(N) if N < 20 else (0, 1, N - 1):
                    q = p * N + j
                    c.same(s.at(q * m + i), nrz(B(q)) * T.cos(phase(at(h, q), K(i), K(F))), what="sample %d of a symbol" % i, where=tx)
        c.ob("waveform, " + lab, tx, guarded(wave), sec=120)

        def corr():
            s = c.stream(rx, [src("x")] + a)
            h = hops(c, K(lo), K(hi), N, K(64))
            p = T.fresh("p", lo=0)
            for j in range(N) if N < 20 else (0, 1, N - 1):
                q = p * N + j
                c.same(s.at(q), T.pos(litsum(m, lambda k: X(q * m + k) * T.cos(phase(at(h, q), k, K(F))))), what="bit", where=rx)
        c.ob("receiver, " + lab, rx, guarded(corr), sec=120)
        c.ob("inverse, " + lab, rx, guarded(lambda: roundtrip(
            c, tx, rx, bits(), a, a, B, what="rx(tx(bits))", split=[(K(N), K(j)) for j in range(N) if N < 20 or j in (0, 1, N - 1)])), sec=120)
        for L in (0, 1, 2, N + 1) if N < 20 else (3,):
            c.ob("inverse, %s, %d bits" % (lab, L), rx, guarded(lambda: roundtrip(
                c, tx, rx, bits(K(L)), a, a, B, K(L), what="rx(tx(bits))")), sec=120)


@prop("C19", 10)
def c19(c):
    w = "fh::HopTable::next"
    lo, hi = real("lo"), real("hi")
    seed = nat("seed")
    def cycle(N, x, seeds, perms, used, j, last_of):
        """one hop of a cycle: x = lo + step * (item of the permutation)"""
        ps = [T.ATOMS[a] for a in T.atoms_rec(x) if T.ATOMS[a].kind == "app" and T.ATOMS[a].args[0] == "perm"]
        if not ps and not uninterpreted(x) and not any(A.kind == "iter" for A in map(T.ATOMS.__getitem__, T.atoms_rec(x))):
            raise Bad("hop %d of a cycle is not drawn by the generator" % j, w, got=x)
        if len(ps) != 1:
            raise T.Undecided("hop %d of a cycle is not one item of one permutation" % j)
        A = ps[0]
        kind, sd, first, last, n, i = A.args[1:]
        if perms and A.args[1:6] != perms[0]:
            raise Bad("hops of one cycle come from different shuffles", w, got=A)
        perms[:] = [A.args[1:6]]
        if n is not K(N) or not i.is_const() or i in used:
            raise Bad("hop %d repeats or leaves the permutation" % j, w, got=A)
        if sd is not seed:
            raise Bad("the generator is not seeded with the given seed", w, got=sd, want=seed)
        if not last_of(last):
            raise Bad("the table is not reshuffled in every cycle", w, got=A)
        used.add(i)
        c.same(x, lo + T.div(hi - lo, K(N)) * T.apoly(A), what="hop %d of a cycle" % j, where=w)

    for N in (1, 2, 3, 4, 5, 6, 8, 20, 70) if not c.thorough else (*range(1, 17), 20, 33, 70, 96):
        def f():
            h = hops(c, lo, hi, N, seed)
            if h.length() is not INF:
                raise Bad("the hop pattern ends", w, got=h.length())
            k = T.fresh("k", lo=0)
            if N == 1:
                c.same(h.at(k), lo, what="only frequency", where=w)
                return "constant"
            perms, used = [], set()
            for j in range(N):
                cycle(N, T.renorm(at(h, k * N + j)), seed, perms, used, j, lambda last: T.the_atom(k).id in last.fv())
            return "low + i*(high-low)/%d, i a permutation reshuffled per cycle" % N
        c.ob("every cycle of %d hops is a permutation of the grid" % N, w, guarded(f))

    def large(N, cycles):
        from ..demand import Demand
        D = Demand()
        D.values = True
        I = c.interp()
        I.demand = D
        try:
            v, st, _ = c.call("fh::HopTable::new", [lo, hi, K(N), seed], I=I)
            lasts = set()
            for q in range(cycles):
                perms, used = [], set()
                for j in range(N):
                    x, v = D.pull(I, st, v)
                    if not D.some(x):
                        raise Bad("the hop pattern ends", w, got=K(q * N + j))
                    cycle(N, T.renorm(x.fields(1)[0]), seed, perms, used, j, lambda last: True)
                if perms[0][3] in lasts:
                    raise Bad("the table is not reshuffled in every cycle", w, got=perms[0][3])
                lasts.add(perms[0][3])
        finally:
            c.called |= I.called
        return "%d hops written out" % (N * cycles)
    for N, q in ((70, 2), (300, 2)) + (((5, 20), (1000, 1)) if c.thorough else ()):
        c.ob("%d cycles of %d hops are permutations of the grid" % (q, N), w, guarded(lambda: large(N, q)), sec=120)


# ------------------------------------------------------------------ receivers' decision statistics
@prop("C28", 10)
def c28(c):
    rx = "ofdm::rx_ofdm_qpsk_signal"
    fc = FC()
    for S, P, Fs, R in [(4, 1, 6, 2), (4, 2, 4, 4), (8, 2, 8, 4)] + ([(4, 2, 8, 2), (16, 4, 8, 4)] if c.thorough else []):
        D, W, m = S - P, S + S // 4, Fs // R

        def corr(k):
            """the complex sample that symbol k of the signal correlates to"""
            re = im = ZERO
            for j in range(m):
                x = X(k * m + j)
                re = re + x * T.cos(phase(fc, k * m + j, K(Fs)))
                im = im - x * T.sin(phase(fc, k * m + j, K(Fs)))
            return re, im

        def f():
            s = c.stream(rx, [src("x"), K(S), K(P), K(Fs), K(R), fc])
            if s.length() is not INF:
                raise Bad("the decisions on an endless signal end", rx, got=s.length())
            p = T.fresh("p", lo=0)
            cache = [corr(p * W + S // 4 + t) for t in range(S)]
            for j, ca in enumerate(carriers(S, P)):
                k = (ca + S // 2) % S
                re = im = ZERO
                for t in range(S):
                    x, y = cache[t]
                    re = re + x * T.cos(rot(k * t, S)) + y * T.sin(rot(k * t, S))
                    im = im - x * T.sin(rot(k * t, S)) + y * T.cos(rot(k * t, S))
                c.same(s.at(p * (2 * D) + 2 * j), T.ge0(re), what="first bit of carrier %d" % j, where=rx)
                c.same(s.at(p * (2 * D) + (2 * j + 1)), T.ge0(im), what="second bit of carrier %d" % j, where=rx)
        c.ob("OFDM: decisions, %d carriers, %d pilots, %d samples per symbol" % (S, P, m), rx, guarded(f), sec=120)
        for nb in (0, 1, 2) if c.thorough or m * S < 12 else (1,):
            def fin():
                s = c.stream(rx, [src("x", K(nb * W * m)), K(S), K(P), K(Fs), K(R), fc])
                L = s.length()
                if L is INF or not (L - K(nb * 2 * D)).is_zero():
                    if L is not INF and not L.is_const():
                        raise T.Undecided("length not derived")
                    raise Bad("%d blocks give %s decisions" % (nb, L), rx, got=L, want=nb * 2 * D)
            c.ob("OFDM: decisions on %d blocks, %d carriers, %d pilots, %d samples per symbol" % (nb, S, P, m), rx, guarded(fin), sec=120)
    tx = "ofdm::tx_ofdm_qpsk_signal"
    for S, P, Fs, R, f0 in [(4, 1, 8, 2, 2), (4, 1, 6, 2, 2), (4, 2, 8, 1, 3)] + ([(8, 2, 8, 2, 2)] if c.thorough else []):
        a = [K(S), K(P), K(Fs), K(R), K(f0)]
        D = S - P
        for L in (2 * D, 4 * D) if c.thorough else (2 * D,):
            def inv():
                s = c.stream(rx, [Stream(c.stream(tx, [bits(K(L))] + a))] + a)
                c.items(s, B, K(L), what="rx(tx(message))", where=rx)
            c.ob("OFDM: inverse of %d bits, %d carriers, %d pilots, fs=%d rate=%d f=%d" % (L, S, P, Fs, R, f0), rx, guarded(inv), sec=120)
    rx2 = "fm::rx_fsk"
    f0 = real("fc")
    for Fs, R in [(2, 2), (4, 2), (6, 2), (8, 2)] + ([(5, 1), (12, 2)] if c.thorough else []):
        m = Fs // R

        def stat(k):
            tot = ZERO
            for sg, df in ((1, Fraction(41, 40)), (-1, Fraction(39, 40))):
                co = si = ZERO
                for j in range(m):
                    ang = (TWO * PI * f0 * (k + j)).scale(df / Fs)
                    co = co + X(k * m + j) * T.cos(ang)
                    si = si + X(k * m + j) * T.sin(ang)
                tot = tot + (co * co + si * si).scale(sg)
            return tot

        def f():
            s = c.stream(rx2, [src("x"), K(Fs), K(R), f0])
            c.items(s, lambda n: T.ge0(stat(n)), INF, what="decision", where=rx2)
        c.ob("FSK: larger squared tone correlation, %d samples per symbol" % m, rx2, guarded(f), sec=120)
        for L in (0, m, 2 * m):
            def fin():
                s = c.stream(rx2, [src("x", K(L)), K(Fs), K(R), f0])
                c.items(s, lambda n: T.ge0(stat(n)), K(L // m), what="decision", where=rx2)
            c.ob("FSK: decisions on %d samples, %d per symbol" % (L, m), rx2, guarded(fin), sec=120)
    w = "csk::rx_baseband_csk"

    def f():
        s = c.stream(w, [src("x")])
        c.items(s, lambda n: T.pos(T.absv(X(n) - chaos(n, X2)) - T.absv(X(n) - chaos(n, X1))), INF, what="decision", where=w)
    c.ob("CSK: the nearer chaotic sample", w, guarded(f))
    w2 = "dcsk::rx_baseband_dcsk"

    def f():
        s = c.stream(w2, [src("x")])
        c.items(s, lambda n: T.pos(X(n * 2) * X(n * 2 + 1)), INF, what="decision", where=w2)
    c.ob("DCSK: sign of the product of the pair", w2, guarded(f))
