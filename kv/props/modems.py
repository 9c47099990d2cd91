"""Modulators and demodulators: waveforms, sampling grids and exact inverses."""
from ..check import *

ZERO, ONE, TWO, PI = T.const(0), T.const(1), T.const(2), T.PI


def nrz(b):
    return b.scale(2) - 1


def sg(b):
    """rust bit -> +-1"""
    return nrz(b)


def phase(f, n, fs):
    return T.div(TWO * PI * f * n, fs)


def ssum(n, f):
    v = T.fresh("s", lo=0, hi=n - 1)
    return T.msum(n, v, f(v))


def litsum(n, f):
    return sum((f(K(i)) for i in range(n)), ZERO)


FC = lambda: real("fc", nonneg=True)

# (sample rate, symbol rate): whole samples per symbol
GRID = [(48, 16), (64, 16), (40, 8), (16, 16)]
GRID_T = GRID + [(96, 16), (1000, 125), (44100, 11025)]


def grid(c):
    return GRID_T if c.thorough else GRID


def symbolic():
    sps, sr = nat("sps", 1), nat("sr", 1)
    return sps, sr, sps * sr


def roundtrip(c, tx, rx, msg, txa, rxa, want, length=INF, what="", split=None, hyps=()):
    s, st, I = c.call(tx, [msg] + txa)
    v, st, I = c.call(rx, [s] + rxa, I=I, st=st)
    c.items(c.seq(v, st, I), want, length, hyps=hyps, what=what, where=rx, split=split)


def guarded(f):
    """a panic on a valid configuration is a violation"""
    def g():
        try:
            return f()
        except interp.Diverge:
            raise Bad("panics on a valid configuration")
    return g


@prop("C08")
def c08(c):
    btx, brx = "bpsk::tx_baseband_bpsk_signal", "bpsk::rx_baseband_bpsk_signal"
    c.ob("baseband symbols are +1/-1", btx, guarded(lambda: c.items(
        c.stream(btx, [bits()]), lambda n: V.cplx(nrz(B(n)), ZERO), what="tx", where=btx)))
    c.ob("baseband decision is the sign of the real part", brx, guarded(lambda: c.items(
        c.stream(brx, [csrc()]), lambda n: ONE - T.pos(-X(n, "re")), what="rx", where=brx)))
    c.ob("baseband inverse", brx, guarded(lambda: roundtrip(c, btx, brx, bits(), [], [], B, what="rx(tx(bits))")))
    for L in (0, 1, 2, 5):
        c.ob("baseband inverse, %d bits" % L, brx, guarded(lambda: roundtrip(c, btx, brx, bits(K(L)), [], [], B, K(L), what="rx(tx(bits))")))
    tx, rx = "bpsk::tx_bpsk_signal", "bpsk::rx_bpsk_signal"
    sps, sr, fs = symbolic()
    fc = FC()
    c.ob("passband inverse, all rates and carriers", rx, guarded(lambda: roundtrip(
        c, tx, rx, bits(), [fs, sr, fc], [fs, sr, fc], B, what="rx(tx(bits))")))
    c.ob("passband waveform, all rates and carriers", tx, guarded(lambda: c.items(
        c.stream(tx, [bits(), fs, sr, fc]), lambda n: nrz(B(T.idiv(n, sps))) * T.cos(phase(fc, n, fs)), what="tx", where=tx)))
    c.ob("correlation receiver, all rates and carriers", rx, guarded(lambda: c.items(
        c.stream(rx, [src("x"), fs, sr, fc]),
        lambda n: T.pos(ssum(sps, lambda k: X(n * sps + k) * T.cos(phase(fc, n * sps + k, fs)))), what="rx", where=rx)))
    for F, R in grid(c):
        m = F // R
        a = [K(F), K(R), fc]
        for L in (INF, K(0), K(1), K(3)):
            lab = "" if L is INF else ", %s bits" % L
            c.ob("passband inverse fs=%d rate=%d%s" % (F, R, lab), rx, guarded(lambda: roundtrip(
                c, tx, rx, bits(L), a, a, B, L, what="rx(tx(bits))")))
            c.ob("passband waveform fs=%d rate=%d%s" % (F, R, lab), tx, guarded(lambda: c.items(
                c.stream(tx, [bits(L)] + a), lambda n: nrz(B(T.idiv(n, K(m)))) * T.cos(phase(fc, n, K(F))),
                INF if L is INF else L * m, what="tx", where=tx,
                split=[(K(m), K(i)) for i in range(m)] if L is INF and m < 8 else None)))
        if m < 8:
            c.ob("correlation receiver fs=%d rate=%d" % (F, R), rx, guarded(lambda: c.items(
                c.stream(rx, [src("x")] + a),
                lambda n: T.pos(litsum(m, lambda k: X(n * m + k) * T.cos(phase(fc, n * m + k, K(F))))), what="rx", where=rx)))


# whole or half carrier cycles per symbol: the two quadratures are orthogonal over each symbol
QGRID = [(64, 16, 16), (64, 8, 8), (64, 8, 12), (96, 16, 24), (80, 16, 16)]


@prop("C09")
def c09(c):
    btx, brx = "qpsk::tx_baseband_qpsk_signal", "qpsk::rx_baseband_qpsk_signal"
    r2 = T.sqrt(TWO)
    even = [(TWO, ZERO), (TWO, ONE)]
    c.ob("baseband constellation", btx, guarded(lambda: c.items(
        c.stream(btx, [bits()]), lambda n: V.cplx(nrz(B(n * 2)) * r2, nrz(B(n * 2 + 1)) * r2), what="tx", where=btx)))
    c.ob("baseband decisions are the signs of the quadratures", brx, guarded(lambda: c.items(
        c.stream(brx, [csrc()]),
        lambda n: T.ite(T.eqz(T.rem(n, TWO)), ONE - T.pos(-X(T.idiv(n, TWO), "re")), ONE - T.pos(-X(T.idiv(n, TWO), "im"))),
        what="rx", where=brx, split=even)))
    c.ob("baseband inverse", brx, guarded(lambda: roundtrip(c, btx, brx, bits(), [], [], B, what="rx(tx(bits))", split=even)))
    for L in (0, 1, 2, 3, 4, 6):
        c.ob("baseband inverse, %d bits" % L, brx, guarded(lambda: roundtrip(
            c, btx, brx, bits(K(L)), [], [], B, K(L // 2 * 2), what="rx(tx(bits))")))
    tx, rx = "qpsk::tx_qpsk_signal", "qpsk::rx_qpsk_signal"
    sps, sr, fs = symbolic()
    fc = FC()

    def wave(n, m, f, F):
        s = T.idiv(n, m)
        return nrz(B(s * 2)) * T.cos(phase(f, n, F)) - nrz(B(s * 2 + 1)) * T.sin(phase(f, n, F))
    c.ob("passband waveform, all rates and carriers", tx, guarded(lambda: c.items(
        c.stream(tx, [bits(), fs, sr, fc]), lambda n: wave(n, sps, fc, fs), what="tx", where=tx)))

    def corr(n, m, f, F, sm):
        s = T.idiv(n, TWO)
        i = sm(m, lambda k: X(s * m + k) * T.cos(phase(f, s * m + k, F)))
        q = sm(m, lambda k: -X(s * m + k) * T.sin(phase(f, s * m + k, F)))
        return T.ite(T.eqz(T.rem(n, TWO)), ONE - T.pos(-i), ONE - T.pos(-q))
    c.ob("correlation receiver, all rates and carriers", rx, guarded(lambda: c.items(
        c.stream(rx, [src("x"), fs, sr, fc]), lambda n: corr(n, sps, fc, fs, ssum), what="rx", where=rx, split=even)))
    for F, R in grid(c)[:3]:
        m = F // R
        a = [K(F), K(R), fc]
        for L in (INF, K(0), K(1), K(2), K(5)):
            lab = "" if L is INF else ", %s bits" % L
            c.ob("passband waveform fs=%d rate=%d%s" % (F, R, lab), tx, guarded(lambda: c.items(
                c.stream(tx, [bits(L)] + a), lambda n: wave(n, K(m), fc, K(F)),
                INF if L is INF else T.idiv(L, TWO) * m, what="tx", where=tx,
                split=[(K(m), K(i)) for i in range(m)] if L is INF else None)))
        c.ob("correlation receiver fs=%d rate=%d" % (F, R), rx, guarded(lambda: c.items(
            c.stream(rx, [src("x")] + a), lambda n: corr(n, m, fc, K(F), lambda m, f: litsum(m, f)), what="rx", where=rx, split=even)))
    for F, R, f in QGRID:
        a = [K(F), K(R), K(f)]
        for L in (INF, K(0), K(2), K(3), K(4)):
            lab = "" if L is INF else ", %s bits" % L
            c.ob("passband inverse fs=%d rate=%d carrier=%d%s" % (F, R, f, lab), rx, guarded(lambda: roundtrip(
                c, tx, rx, bits(L), a, a, B, INF if L is INF else T.idiv(L, TWO) * 2, what="rx(tx(bits))",
                split=even if L is INF else None)))


@prop("C10")
def c10(c):
    tx, rx = "cdma::tx_baseband_cdma", "cdma::rx_baseband_cdma"
    kk = nat("K", 1)

    def key(n):
        if isinstance(n, int):
            return arr("key", n, isbool=True)
        return V.gen(n, lambda i: T.elem("key", i, isbool=True))
    c.ob("baseband inverse, any key", rx, guarded(lambda: roundtrip(
        c, tx, rx, bits(), [key(kk)], [key(kk)], B, what="rx(tx(bits))")))
    c.ob("spreading XORs each bit with the whole key, any key", tx, guarded(lambda: c.items(
        c.stream(tx, [bits(), key(kk)]), lambda n: T.bxor(B(T.idiv(n, kk)), T.elem("key", T.rem(n, kk), isbool=True)), what="tx", where=tx)))
    for k in (1, 2, 3, 4) + ((5, 8) if c.thorough else ()):
        c.ob("spreading, %d-chip key" % k, tx, guarded(lambda: c.items(
            c.stream(tx, [bits(), key(k)]), lambda n: T.bxor(B(T.idiv(n, K(k))), T.elem("key", T.rem(n, K(k)), isbool=True)),
            what="tx", where=tx, split=[(K(k), K(i)) for i in range(k)])))
        c.ob("despreading is a majority vote, %d-chip key" % k, rx, guarded(lambda: c.items(
            c.stream(rx, [bits(), key(k)]),
            lambda n: T.ge0(litsum(k, lambda i: T.bxor(B(n * k + i), T.elem("key", i, isbool=True))) * 2 - k - 1),
            what="rx", where=rx)))
        for L in (INF, K(0), K(1), K(2)):
            lab = "" if L is INF else ", %s bits" % L
            c.ob("baseband inverse, %d-chip key%s" % (k, lab), rx, guarded(lambda: roundtrip(
                c, tx, rx, bits(L), [key(k)], [key(k)], B, L, what="rx(tx(bits))")))
    fc = FC()
    for nm, grid_ in (("bpsk", [(128, 16, 4, fc), (48, 8, 3, fc), (32, 16, 1, fc), (64, 8, 2, fc)]),
                      ("qpsk", [(128, 16, 4, K(16)), (64, 8, 2, K(8)), (96, 8, 3, K(16))])):
        tx, rx = "cdma::tx_cdma_%s_signal" % nm, "cdma::rx_cdma_%s_signal" % nm
        q = nm == "qpsk"
        for F, R, k, f in grid_:
            a = [K(F), K(R), f, key(k)]
            m = F // R
            ch = m // k
            for L in (INF, K(0), K(2), K(4)) if F != 128 or c.thorough else (INF,):
                lab = "" if L is INF else ", %s bits" % L
                c.ob("%s inverse fs=%d rate=%d, %d-chip key%s" % (nm, F, R, k, lab), rx, guarded(lambda: roundtrip(
                    c, tx, rx, bits(L), a, a, B, L, what="rx(tx(bits))",
                    split=[(TWO, ZERO), (TWO, ONE)] if q and L is INF else None)), sec=120)

            def wave(n):
                s = T.idiv(n, K(m))
                chip = nrz(T.elem("key", T.idiv(T.rem(n, K(m)), K(ch)), isbool=True))
                if q:
                    b = nrz(B(s * 2)) * T.cos(phase(f, n, K(F))) - nrz(B(s * 2 + 1)) * T.sin(phase(f, n, K(F)))
                else:
                    b = nrz(B(s)) * T.cos(phase(f, n, K(F)))
                return chip * b
            c.ob("%s waveform fs=%d rate=%d, %d-chip key" % (nm, F, R, k), tx, guarded(lambda: c.items(
                c.stream(tx, [bits()] + a), wave, what="tx", where=tx, split=[(K(m), K(i)) for i in range(m)])))

            def corr(p, odd):
                x = ZERO
                for i in range(m):
                    x = x + X(p * m + i) * nrz(T.elem("key", K(i // ch), isbool=True)) * (T.sin if odd else T.cos)(phase(f, p * m + i, K(F)))
                return ONE - T.pos(x if odd else -x) if q else T.pos(x)

            def decisions():
                s = c.stream(rx, [src("x")] + a)
                if s.length() is not INF:
                    raise Bad("the decisions on an endless signal end", rx, got=s.length())
                p = T.fresh("p", lo=0)
                for odd in (0, 1) if q else (0,):
                    c.same(s.at(p * 2 + odd if q else p), corr(p, odd), what="decision", where=rx)
            c.ob("%s receiver fs=%d rate=%d, %d-chip key" % (nm, F, R, k), rx, guarded(decisions))
    tx, rx = "cdma::tx_cdma_bpsk_signal", "cdma::rx_cdma_bpsk_signal"
    ctx, crx = "cdma::tx_coded_cdma_bpsk_signal", "cdma::rx_coded_cdma_bpsk_signal"
    btx, brx = "cdma::tx_baseband_cdma", "cdma::rx_baseband_cdma"
    for k in (70, 300):
        def large():
            s = c.drive(brx, [bits(K(k)), key(k)])
            if s is None:
                raise T.Undecided("not derived item by item")
            c.items(s, lambda n: T.ge0(litsum(k, lambda i: T.bxor(B(i), T.elem("key", i, isbool=True))) * 2 - k - 1), K(1), what="rx", where=brx)
        c.ob("despreading is a majority vote, %d-chip key" % k, brx, guarded(large))
    en, de = "bch::bch_stream_encode", "bch::bch_stream_decode"
    for F, R, k, f in [(32, 16, 1, K(4)), (32, 8, 2, fc), (96, 8, 3, fc)]:
        a = [K(F), K(R), f, key(k)]
        m = F // R

        def coded(name, via, out, x, inner, want):
            I = c.interp()
            I.stubs = {via: lambda I, st, args: out}
            v, st, I = c.call(name, [x] + a, I=I)
            if len(I.stubbed) != 1:
                raise T.Undecided("does not apply %s once" % via)
            t = c.seq(I.stubbed[0][1][0], st, I)
            s = c.seq(v, st, I)
            p = T.fresh("p", lo=0)
            for got in (t, s):
                c.same(ONE if got.length() is INF else ZERO, ONE, what="endless", where=name)
            c.same(t.at(p), inner(p), what="what the code is applied to", where=name)
            for i in range(m):
                c.same(s.at(p * m + i), want(p * m + i), what="output", where=name)

        def wave(n):
            chip = nrz(T.elem("key", T.idiv(T.rem(n, K(m)), K(m // k)), isbool=True))
            return chip * nrz(T.elem("coded", T.idiv(n, K(m)), isbool=True)) * T.cos(phase(f, n, K(F)))

        def corr(p):
            return T.pos(litsum(m, lambda i: X(p * m + i) * nrz(T.elem("key", T.idiv(i, K(m // k)), isbool=True)) * T.cos(phase(f, p * m + i, K(F)))))
        lab = "fs=%d rate=%d, %d-chip key" % (F, R, k)
        c.ob("the coded transmitter spreads the encoded message, " + lab, ctx, guarded(lambda: coded(
            ctx, en, src("coded", isbool=True), bits(), B, wave)))
        c.ob("the coded receiver decodes the plain receiver's decisions, " + lab, crx, guarded(lambda: coded(
            crx, de, src("decoded", isbool=True), src("x"), corr, lambda n: T.elem("decoded", n, isbool=True))))
