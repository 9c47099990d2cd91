"""C27: the Python module registers every function and each forwards its arguments to the Rust operation."""
import json
import re
from ..check import *
from .modems import guarded, ZERO, ONE, TWO, FC

M = "module_with_functions"
# Python name -> (path of the Rust function, its parameters as Python sees them)
EXPORTS = {
    "tx_baseband_bpsk": (M + "::tx_baseband_bpsk", "message"),
    "tx_bpsk": (M + "::tx_bpsk", "message, sample_rate, symbol_rate, carrier_freq"),
    "rx_bpsk": (M + "::rx_bpsk", "signal, sample_rate, symbol_rate, carrier_freq"),
    "tx_qpsk": (M + "::tx_qpsk", "message, sample_rate, symbol_rate, carrier_freq"),
    "rx_qpsk": (M + "::rx_qpsk", "signal, sample_rate, symbol_rate, carrier_freq"),
    "tx_cdma_bpsk": (M + "::tx_cdma_bpsk", "message, sample_rate, symbol_rate, carrier_freq"),
    "tx_ofdm": (M + "::tx_ofdm", "message, subcarriers, pilots, sample_rate, symbol_rate, carrier_freq"),
    "rx_ofdm": (M + "::rx_ofdm", "signal, subcarriers, pilots, sample_rate, symbol_rate, carrier_freq"),
    "tx_csk": (M + "::tx_csk", "message, sample_rate, symbol_rate"),
    "tx_dcsk": (M + "::tx_dcsk", "message, sample_rate, symbol_rate"),
    "tx_bfsk": (M + "::tx_bfsk", "message, sample_rate, symbol_rate, freq_low, freq_high"),
    "tx_fh_css": (M + "::tx_fh_css", "message, sample_rate, symbol_rate, freq_low, freq_high, num_freqs"),
    "tx_fh_ofdm_dcsk": (M + "::tx_fh_ofdm_dcsk", "message, sample_rate, symbol_rate, carrier_freq"),
    "random_data": ("random_data", "num_bits"),
    "awgn": ("awgn_py", "signal, sigma"),
    "pure_awgn": ("pure_awgn", "size, sigma"),
    "chirp": ("chirp", "chirp_rate, sample_rate, f0, f1"),
    "energy_detector": ("energy_detector", "signal"),
    "avg_energy": ("avg_energy_py", "signal"),
    "ssca": ("ssca_py", "s, n=4096, np=64, map_output=False"),
    "max_cut_detector": ("max_cut_detector", "signal"),
    "max_cut_detector_sxf": ("max_cut_detector_sxf", "sxf"),
    "dcs_detector": ("dcs_detector", "signal"),
    "dcs_detector_sxf": ("dcs_detector_sxf", "sxf"),
}


def walk(x, out):
    if isinstance(x, dict):
        if "const" in x or "fn" in x:
            out.append(x)
        for v in x.values():
            walk(v, out)
    elif isinstance(x, list):
        for v in x:
            walk(v, out)


def registered(d):
    """paths of the functions whose definitions the module body (or a function it calls) hands to the module"""
    out, todo, seen = [], [M], {M}
    while todo:
        b = d.by_path.get(todo.pop())
        if b is None:
            continue
        xs = []
        walk(b.get("blocks"), xs)
        walk(b.get("promoted"), xs)
        for x in xs:
            k = x.get("const")
            if isinstance(k, dict) and str(k.get("path", "")).endswith("::_PYO3_DEF"):
                p = k["path"][:-len("::_PYO3_DEF")]
                if p not in out:
                    out.append(p)
            n = x.get("fn")
            if n and x.get("local") and n not in seen:
                seen.add(n)
                todo.append(n)
        pre = b["path"] + "::{closure"
        todo += [p for p in d.by_path if p.startswith(pre) and p not in seen]
        seen |= set(todo)
    return out


def pyname(d, path):
    """(name Python sees, text signature) of a registered function"""
    for q in ("<impl %s::MakeDef>::_PYO3_DEF" % path,
              "%s::<impl %s::MakeDef>::_PYO3_DEF" % (path.rsplit("::", 1)[0], path)):
        b = d.by_path.get(q)
        if b is not None:
            xs = []
            walk(b["blocks"], xs)
            ss = [json.loads(x["const"]["dbg"].replace("\\0", "").replace("\\'", "'")) for x in xs
                  if isinstance(x.get("const"), dict) and str(x["const"].get("dbg", "")).startswith('"')]
            if ss:
                return ss[0], ss[1] if len(ss) > 1 else ""
    raise T.Undecided("no Python definition of %s" % path)


def params(sig):
    m = re.match(r"[^(]*\((.*?)\)\n--", sig, re.S)
    if not m:
        raise T.Undecided("text signature %r" % sig[:60])
    return [x.strip() for x in m.group(1).split(",") if x.strip()]


def vec(L=INF):
    return V.gen(L, B)


def sig(L):
    return V.gen(L, X)


FSK_LO, FSK_HI = T.const(8), T.const(14)


@prop("C27", 30)
def c27(c):
    d = c.d
    names = {}
    c.extra = {"registered": 0}

    def reg():
        if M not in d.by_path:
            raise Missing("no module function")
        for p in registered(d):
            n, s = pyname(d, p)
            if n in names:
                raise Bad("two functions are registered as %s" % n, p)
            names[n] = p, s
        c.extra["registered"] = len(names)
        if not names:
            raise T.Undecided("no registrations found")
    c.ob("registrations", M, reg)

    for n, (p, want) in EXPORTS.items():
        def f():
            if not names:
                raise T.Undecided("no registrations")
            if n not in names:
                raise Bad("%s is not registered with the module" % n, M, got=sorted(names))
            got = params(names[n][1])
            ws = [x.strip() for x in want.split(",")]
            if len(got) != len(ws):
                raise Bad("%s takes %d arguments" % (n, len(got)), names[n][0], got=got, want=ws)
            for g, w in zip(got, ws):
                g, w = (x.split("=")[1] if "=" in x else None for x in (g, w))
                if g != w and not (w is not None and g == "..."):
                    raise Bad("default of an argument of %s differs" % n, names[n][0], got=got, want=ws)
            return "%s as %s(%s)" % (names[n][0], n, ", ".join(got))
        c.ob("%s is registered" % n, M, f)

    def path(n):
        if n not in names:
            raise Missing("%s is not registered" % n)
        return names[n][0]

    def fwd(n, lab, got, fn, want, free=()):
        """the binding returns what the operation yields for the same arguments"""
        def f():
            w = path(n)
            FREE.update(free)
            try:
                a, st, I = c.call(w, got)
                a = c.seq(a, st, I)
            except interp.Diverge:
                raise Bad("%s panics on every path" % w, w)
            b = want() if callable(want) else c.stream(fn, want)
            la, lb = a.length(), b.length()
            if la is INF or lb is INF:
                raise T.Undecided("unbounded result")
            c.items(a, lambda i: V.norm_val(b.at(i)), lb, what="%s" % n, where=w)
        c.ob("%s forwards, %s" % (n, lab), fn, guarded(f), sec=120)

    FC1 = FC()
    L = 5
    for F, R in ((64, 16), (48, 8)):
        m = F // R
        lab = "fs=%d rate=%d" % (F, R)
        a = [K(F), K(R), FC1]
        for n, mod in (("bpsk", "bpsk"), ("qpsk", "qpsk")):
            tx, rx = "%s::tx_%s_signal" % (mod, n), "%s::rx_%s_signal" % (mod, n)
            fwd("tx_" + n, lab, [vec(K(4))] + a, tx, [bits(K(4))] + a)
            fwd("rx_" + n, lab, [sig(K(3 * m))] + a, rx, [src("x", K(3 * m))] + a)
        for S, P in ((8, 2), (4, 1)) if F == 64 or c.thorough else ((4, 1),):
            o = [K(S), K(P)] + a
            lb = "%s, %d carriers, %d pilots" % (lab, S, P)
            fwd("tx_ofdm", lb, [vec(K(L))] + o, "ofdm::tx_ofdm_qpsk_signal", [bits(K(L))] + o)
            fwd("rx_ofdm", lb, [sig(K((S + S // 4) * m))] + o, "ofdm::rx_ofdm_qpsk_signal", [src("x", K((S + S // 4) * m))] + o)
        fwd("tx_bfsk", lab, [vec(K(L)), K(F), K(R), FSK_LO, FSK_HI], "fsk::tx_bfsk_signal", [bits(K(L)), K(F), K(R), FSK_LO, FSK_HI])
        for lo, hi, N in ((4, 16, 2), (2, 14, 3)):
            b = [K(F), K(R), K(lo), K(hi), K(N)]
            fwd("tx_fh_css", "%s, band %d-%d, %d frequencies" % (lab, lo, hi, N), [vec(K(L))] + b, "fh_css::tx_fh_css_signal", [bits(K(L))] + b)
        for n in ("csk", "dcsk"):
            def held():
                s = c.stream("%s::tx_baseband_%s" % (n, n), [bits(K(3))])
                return V.gen(T.P(s.length()) * m, lambda i: s.at(T.idiv(i, K(m))))
            fwd("tx_" + n, lab, [vec(K(3)), K(F), K(R)], n + "::tx_baseband_" + n, held)
        if F == 64 or c.thorough:
            fwd("tx_fh_ofdm_dcsk", lab, [vec(K(2))] + a, "fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal_2", [bits(K(2))] + a)
    fwd("tx_baseband_bpsk", "any length", [vec(nat("L", 0))], "bpsk::tx_baseband_bpsk_signal", [bits(nat("L", 0))])
    for F, R in ((512, 16), (96, 2)):
        def key():
            I = c.interp()
            v, st, I = c.call("hadamard::HadamardMatrix::new", [K(16)], I=I)
            cell = ("hm", 0)
            st.store[cell] = v
            k, st, I = c.call("hadamard::HadamardMatrix::key", [V.Ref(cell), ZERO], I=I, st=st)
            return c.seq(k, st, I)

        def cdma():
            k = key()
            return c.stream("cdma::tx_cdma_bpsk_signal", [bits(K(3)), K(F), K(R), FC1, k])
        fwd("tx_cdma_bpsk", "fs=%d rate=%d" % (F, R), [vec(K(3)), K(F), K(R), FC1], "cdma::tx_cdma_bpsk_signal", cdma)
    for F, R in ((64, 16), (1000, 8)):
        f0, f1 = real("f0"), real("f1")
        fwd("chirp", "fs=%d rate=%d" % (F, R), [K(R), K(F), f0, f1], "fh_css::linear_chirp", [K(R), K(F), f0, f1])
    Ln = nat("L", 1)

    def scalar(n, lab, got, want):
        def f():
            w = path(n)
            c.same(c.value(w, got), want(), what=n, where=w)
        c.ob("%s, %s" % (n, lab), n, guarded(f))
    scalar("avg_energy", "any signal", [sig(Ln)], lambda: c.value("avg_energy", [sig(Ln)]))

    # for every value of every argument: the operation itself is summarised, what reaches it and what comes out of it is compared
    def passes(n, fn, got, want=None, key=None, held=None, out=None, Lo=None):
        def f():
            w = path(n)
            I = c.interp()
            Ln = Lo if Lo is not None else nat("Lo", 0)
            el = out or (lambda i: T.elem("out", i))
            I.stubs = {fn: lambda I, st, a: src_of(Ln, el)}
            a, st, I = c.call(w, got, I=I)
            calls = [x for x in I.stubbed if x[0] == fn]
            if not calls:
                raise T.Undecided("no call of %s" % fn)
            a = c.seq(a, st, I)
            ws = list(want if want is not None else got)
            for _, xs in calls:
                xs = list(xs)
                if key is not None:
                    k = c.seq(xs.pop(), st, I)
                    k0 = key()
                    c.items(k, k0.at, K(16), what="spreading code handed to %s" % fn, where=w)
                if len(xs) != len(ws):
                    raise T.Undecided("%s takes %d arguments" % (fn, len(xs)))
                for i, (g, x) in enumerate(zip(xs, ws)):
                    if isinstance(x, T.Poly):
                        c.same(g, x, what="argument %d of %s" % (i, fn), where=w)
                    else:
                        g = c.seq(g, st, I)
                        c.items(g, lambda j: x.at(j), x.length(), what="argument %d of %s" % (i, fn), where=w)
            if held is not None:
                c.items(a, lambda i: el(T.idiv(i, held)), Ln * held, what=n, where=w)
            else:
                c.items(a, el, Ln, what=n, where=w)
        c.ob("%s hands every value of its arguments to the operation%s" % (n, "" if held is None else ", held %s" % held), fn, guarded(f), sec=60)

    def src_of(L, el):
        return Stream(V.gen(L, el))
    bit = lambda i: T.elem("outb", i, isbool=True)
    Fs, Rs, Lm, N1, N2 = nat("F", 1), nat("R", 1), nat("L", 0), nat("n1", 0), nat("n2", 0)
    fa, fb = real("fa"), real("fb")
    m_, s_ = vec(Lm), sig(Lm)
    for n in ("bpsk", "qpsk"):
        passes("tx_" + n, "%s::tx_%s_signal" % (n, n), [m_, Fs, Rs, fa])
        passes("rx_" + n, "%s::rx_%s_signal" % (n, n), [s_, Fs, Rs, fa], out=bit)
    passes("tx_ofdm", "ofdm::tx_ofdm_qpsk_signal", [m_, N1, N2, Fs, Rs, fa])
    passes("rx_ofdm", "ofdm::rx_ofdm_qpsk_signal", [s_, N1, N2, Fs, Rs, fa], out=bit)
    passes("tx_cdma_bpsk", "cdma::tx_cdma_bpsk_signal", [m_, Fs, Rs, fa], key=key)
    passes("tx_bfsk", "fsk::tx_bfsk_signal", [m_, Fs, Rs, fa, fb])
    passes("tx_fh_css", "fh_css::tx_fh_css_signal", [m_, Fs, Rs, fa, fb, N1])
    passes("tx_fh_ofdm_dcsk", "fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal_2", [m_, Fs, Rs, fa])
    for n, h_ in (("csk", 1), ("csk", 4), ("dcsk", 1), ("dcsk", 7)):
        passes("tx_" + n, "%s::tx_baseband_%s" % (n, n), [m_, Rs * h_, Rs], want=[m_], held=K(h_), Lo=K(5))
    passes("chirp", "fh_css::linear_chirp", [fa, Fs, fa, fb])

    from .spectral import stub, check_args, body, S
    for mo in (ZERO, ONE, T.elem("mo", ZERO, isbool=True)):
        def f():
            w = path("ssca")
            I = c.interp()
            I.stubs = {"ssca::ssca_base": tagged("base"), "ssca::ssca_mapped": tagged("mapped")}
            x = sig(Ln)
            n, np = nat("n", 1), nat("np", 1)
            v, st, I = c.call(w, [V.Opaque("the interpreter"), x, n, np, mo], I=I)
            if not I.stubbed:
                raise T.Undecided("no call of the spectral correlation")
            check_args(c, I, [x, n, np], w)
            b = body(v)
            for i in range(2):
                for j in range(2):
                    g = V.seq_at(b.at(K(i)), K(j))
                    p, q = (V.cplx(T.elem(t + "re", K(i), K(j)), T.elem(t + "im", K(i), K(j))) for t in ("mapped", "base"))
                    c.same(g, V.cplx(T.ite(mo, p.fields[0], q.fields[0]), T.ite(mo, p.fields[1], q.fields[1])), what="ssca", where=w)
        c.ob("ssca, map_output=%s" % ("free" if not mo.is_const() else bool(mo.cval())), "ssca_py", guarded(f))


def tagged(t):
    return lambda I, st, a: V.Agg("NdArray", (V.lit([V.lit([V.cplx(T.elem(t + "re", K(i), K(j)), T.elem(t + "im", K(i), K(j)))
                                                            for j in range(2)]) for i in range(2)]),), 2)
