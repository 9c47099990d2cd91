"""C05 laziness, C06 effects, C07 safety, C17 guards, C27 bindings."""
import json
import re
from fractions import Fraction as F

from .. import term as T
from .. import val as V
from .. import interp
from ..val import INF
from ..check import prop, Bad, Missing, src, bits, csrc, real, nat, K, B, X
from ..models import Stream
from .misc import guarded

ONE, ZERO = T.ONE, T.ZERO


# ------------------------------------------------------------------ the crate as a graph
class Crate:
    def __init__(self, d):
        self.bodies = {b["key"]: b for b in d.raw["bodies"]}
        self.raw = d.raw
        self.by_path = {b["path"]: b for b in d.raw["bodies"]}
        self.meth = {}
        for im in d.raw["impls"]:
            a = im["self"].get("adt") if isinstance(im["self"], dict) else None
            if a:
                self.meth.setdefault(a, []).extend(k for _, k in im["items"] if k in self.bodies)
        self._refs = {}

    def refs(self, b):
        """what a body mentions: called or referenced functions, closures, constants and local types' trait methods"""
        r = self._refs.get(b["key"])
        if r is None:
            r = (set(), [])
            for x in (b.get("locals"), b.get("blocks"), b.get("promoted")):
                walk(x, r, self.meth)
            self._refs[b["key"]] = r
        return r

    def reach(self, key):
        """bodies reachable from key -> the body that mentions them"""
        seen = {key: None}
        todo = [key]
        while todo:
            k = todo.pop()
            for q in self.refs(self.bodies[k])[0]:
                if q in self.bodies and q not in seen:
                    seen[q] = k
                    todo.append(q)
        return seen


def walk(x, out, meth):
    if isinstance(x, dict):
        if "fn" in x and "key" in x:
            out[0].add(x["key"])
            if x.get("implkey"):
                out[0].add(x["implkey"])
            out[1].append(x)
        if "closure" in x and isinstance(x["closure"], str):
            out[0].add(x["closure"])
        if "def" in x and isinstance(x["def"], str):
            out[0].add(x["def"])
        if "adt" in x and isinstance(x["adt"], str):
            out[0].update(meth.get(x["adt"], ()))
            out[1].append(x)
        if "fnty" in x and isinstance(x["fnty"], str):
            out[1].append(x)
        for v in x.values():
            walk(v, out, meth)
    elif isinstance(x, list):
        if len(x) >= 3 and x[0] == "closure" and isinstance(x[2], str):
            out[0].add(x[2])
        for v in x:
            walk(v, out, meth)


def crate(c):
    x = getattr(c.d, "_crate", None)
    if x is None:
        x = c.d._crate = Crate(c.d)
    return x


def where(b):
    return "%s (%s)" % (b["path"], b["span"][0] if b.get("span") else "")


# ------------------------------------------------------------------ C06
EFFECTS = [
    ("entropy", re.compile(r"\b(thread_rng|from_entropy|from_os_rng|try_from_os_rng|OsRng|ThreadRng|getrandom|rand::random|rand::rng)\b")),
    ("hash order", re.compile(r"collections::hash_(map|set)::(Iter|IterMut|IntoIter|Keys|Values|IntoKeys|IntoValues|Drain)\b")),
    ("the clock", re.compile(r"std::time::(Instant|SystemTime)::(now|elapsed)")),
    ("the environment", re.compile(r"std::(env|process)::\w")),
    ("files or the network", re.compile(r"std::(fs|net)::\w|std::io::(stdin|Stdin)")),
]
NOISE = {"awgn", "awgn_complex", "awgn_py", "pure_awgn", "random_data"}


def effects(cr, b):
    """-> {effect: what mentions it} of one body"""
    out = {}
    for x in cr.refs(b)[1]:
        for t in (x.get("fn"), x.get("impl"), x.get("adt")):
            if not isinstance(t, str) or x.get("local"):
                continue
            for e, rx in EFFECTS:
                if rx.search(t):
                    out.setdefault(e, t)
    t = json.dumps(b.get("blocks"))
    if "PointerExpose" in t:
        out.setdefault("addresses", "a pointer cast to an integer")
    if "std::thread::LocalKey" in t:
        out.setdefault("thread-local state", "std::thread::LocalKey")
    for s in cr.raw["statics"]:
        if s[6] and (s[3] or not s[4] or s[5]) and ('"%s"' % s[0]) in t and not lazy(s[7]):
            out.setdefault("mutable global state", s[0])
    for x in cr.refs(b)[1]:
        if isinstance(x.get("fn"), str) and re.search(r"OnceLock::<T>::(set|get_mut|take|try_insert|get_mut_or_init)$", x["fn"]):
            out.setdefault("the history of calls", x["fn"])
        # a cell filled at first use is a constant only when what fills it depends on nothing
        if isinstance(x.get("fn"), str) and x["fn"].endswith("OnceLock::<T>::get_or_init"):
            m = json.dumps(x.get("args"))
            for k in re.findall(r'"closure": "([^"]*)"', m):
                q = cr.bodies.get(k)
                if q is None or q.get("upvars") or q.get("captures"):
                    out.setdefault("the history of calls", "a OnceLock filled from a caller's values")
    return out


def lazy(txt):
    t = txt.split("<")[0].split("::")[-1]
    return t in ("OnceLock", "LazyLock") and not re.search(r"\b(Atomic\w+|Mutex|RwLock|RefCell|Cell|UnsafeCell)\b", txt)


@prop("C06", 100)
def c06(c):
    cr = crate(c)
    eff = {k: effects(cr, b) for k, b in cr.bodies.items()}
    c.called |= set(b["path"] for b in cr.bodies.values())
    seen = 0

    def one(b):
        def f():
            r = cr.reach(b["key"])
            for k in r:
                for e, what in eff[k].items():
                    if e == "entropy" and b["path"] in NOISE:
                        continue
                    chain = []
                    q = k
                    while q is not None:
                        chain.append(cr.bodies[q]["path"])
                        q = r[q]
                    raise Bad("depends on %s: %s is reached through %s" % (e, what, " <- ".join(chain)), b["path"], got=what)
            return "%d reachable bodies" % len(r)
        c.ob("%s depends on its arguments alone" % b["path"] if b["path"] not in NOISE
             else "%s draws nothing but entropy" % b["path"], b["path"], f)
    for p in ENTRY:
        b = cr.by_path.get(p)
        if b is not None and b["kind"] in ("Fn", "AssocFn"):
            seen += 1
            one(b)

    def floor():
        if seen * 2 < len(ENTRY):
            raise Bad("only %d of the %d operations of the crate were found" % (seen, len(ENTRY)), "crate root")
        return "%d operations" % seen
    c.ob("the operations of the crate were found", "crate root", floor)

    def control():
        if not any("entropy" in eff[k] for p in NOISE if p in cr.by_path for k in cr.reach(cr.by_path[p]["key"])):
            raise T.Undecided("the entropy source of the noise functions was not recognised")
        return "recognised"
    c.ob("positive control: the noise sources reach entropy", "awgn", control)


# ------------------------------------------------------------------ C07
@prop("C07", 4)
def c07(c):
    raw = crate(c).raw
    cr = crate(c)
    own = [b for b in raw["bodies"] if not b.get("expn")]
    c.called |= set(b["path"] for b in own)

    def blocks():
        n = 0
        for sp, how, local, f in raw["unsafe"]:
            n += 1
            if how == "UserProvided" and local:
                raise Bad("an unsafe block in %s" % f, f, got="%s" % sp[0])
        return "%d bodies, %d unsafe blocks in code generated by dependencies' macros" % (len(own), n)
    c.ob("no unsafe block outside dependencies' macros", "crate root", blocks)

    def fns():
        for b in own:
            if b.get("unsafe"):
                raise Bad("%s is an unsafe function" % b["path"], b["path"])
        return "%d bodies" % len(own)
    c.ob("no unsafe function", "crate root", fns)

    def impls():
        for im in raw["impls"]:
            if im["unsafe"] and im["own"]:
                raise Bad("an unsafe implementation of %s" % im["trait"], str(im["self"]))
        return "%d implementations" % len(raw["impls"])
    c.ob("no unsafe trait implementation", "crate root", impls)

    def statics():
        for p, sp, ty, mut, freeze, tl, mine, txt in raw["statics"]:
            if not mine and not sp[3]:
                continue
            if "pyo3" in txt:
                continue
            if mut:
                raise Bad("%s is a mutable static" % p, p, got=txt)
            if tl:
                raise Bad("%s is thread-local state" % p, p, got=txt)
            if not freeze and not lazy(txt):
                raise Bad("%s is a static with interior mutability" % p, p, got=txt)
            if re.search(r"\b(Atomic\w+|Mutex|RwLock|RefCell|Cell|UnsafeCell)\b", txt):
                raise Bad("%s is a static with interior mutability" % p, p, got=txt)
        for b in own:
            t = json.dumps(b.get("blocks")) + json.dumps(b.get("locals"))
            m = re.search(r'"std::thread::LocalKey[^"]*"', t)
            if m and not b.get("expn"):
                raise Bad("%s uses thread-local state" % b["path"], b["path"], got=m.group(0))
        return "%d statics" % len(raw["statics"])
    c.ob("no mutable global state", "crate root", statics)

    def enough():
        if len(own) < 150:
            raise Bad("only %d bodies of the crate were analysed" % len(own), "crate root")
        return "%d bodies" % len(own)
    c.ob("the bodies of the crate were analysed", "crate root", enough)


# ------------------------------------------------------------------ C05
def reals(i):
    return T.elem("x", i)


def cplxs(i):
    return V.cplx(T.elem("re", i), T.elem("im", i))


def bitsm(i):
    return B(i)


def bytesm(i):
    return T.elem("y", i, isint=True)


def flatc(i):
    return V.cplx(ONE, ZERO)


def flatr(i):
    return real("u")


def stages(c):
    """path, arguments given the tape, kind of item, outputs to drive, most items read after output n, label"""
    t = []
    IT = "iter::Iter::"
    ks = (1, 2, 3, 5) if not c.thorough else (1, 2, 3, 4, 5, 7, 8)

    def add(path, mk, item, N, bound, lab="", targs=None):
        t.append((path, mk, item, N, bound, lab, targs))
    for k in ks:
        lab = " by %d" % k
        add(IT + "inflate", lambda x, k=k: [x, K(k)], reals, 3 * k + 1, lambda n, k=k: n // k + 1, lab)
        add(IT + "take_every", lambda x, k=k: [x, K(k)], reals, 4, lambda n, k=k: n * k + 1, lab)
        add(IT + "chunks", lambda x, k=k: [x, K(k)], reals, 3, lambda n, k=k: (n + 1) * k, lab)
        add(IT + "wchunks", lambda x, k=k: [x, K(k)], reals, 3, lambda n, k=k: (n + 1) * k, lab)
        add(IT + "integrate_and_dump", lambda x, k=k: [x, K(k)], reals, 3, lambda n, k=k: (n + 1) * k, lab)
        add(IT + "nintegrate_and_dump", lambda x, k=k: [x, K(k)], lambda i: V.lit([T.elem("x0", i), T.elem("x1", i)]), 3,
            lambda n, k=k: (n + 1) * k, lab, {"N": 2})
        add(IT + "convolve", lambda x, k=k: [x, V.lit([T.elem("h", K(j)) for j in range(k)])], reals, k + 3, lambda n: n + 1, lab)
        add(IT + "nonvolve", lambda x, k=k: [x, V.lit([T.elem("h", K(j)) for j in range(k)])],
            lambda i: V.lit([T.elem("x0", i), T.elem("x1", i)]), k + 3, lambda n: n + 1, lab, {"N": 2})
    add(IT + "integrate", lambda x: [x], reals, 4, lambda n: n + 1)
    add(IT + "nintegrate", lambda x: [x], lambda i: V.lit([T.elem("x0", i), T.elem("x1", i)]), 4, lambda n: n + 1, "", {"N": 2})
    add(IT + "scale", lambda x: [x, real("g")], reals, 4, lambda n: n + 1)
    add("bpsk::tx_baseband_bpsk_signal", lambda x: [x], bitsm, 4, lambda n: n + 1)
    add("bpsk::rx_baseband_bpsk_signal", lambda x: [x], cplxs, 4, lambda n: n + 1)
    add("qpsk::tx_baseband_qpsk_signal", lambda x: [x], bitsm, 4, lambda n: 2 * n + 2)
    add("qpsk::rx_baseband_qpsk_signal", lambda x: [x], cplxs, 6, lambda n: n // 2 + 1)
    add("csk::tx_baseband_csk", lambda x: [x], bitsm, 4, lambda n: n + 1)
    add("csk::rx_baseband_csk", lambda x: [x], reals, 4, lambda n: n + 1)
    add("dcsk::tx_baseband_dcsk", lambda x: [x], bitsm, 6, lambda n: n // 2 + 1)
    add("dcsk::rx_baseband_dcsk", lambda x: [x], reals, 4, lambda n: 2 * n + 2)
    add("awgn", lambda x: [x, real("sigma")], reals, 4, lambda n: n + 1)
    add("awgn_complex", lambda x: [x, real("sigma")], cplxs, 4, lambda n: n + 1)
    add("bools_to_u8s", lambda x: [x], bitsm, 3, lambda n: 8 * n + 8)
    add("u8s_to_bools", lambda x: [x], bytesm, 17, lambda n: n // 8 + 1)
    add("bch::bch_stream_encode", lambda x: [x], bitsm, 97, lambda n: (n // 96 + 1) * 56)
    add("bch::bch_stream_decode", lambda x: [x], bitsm, 57, lambda n: (n // 56 + 1) * 96)
    f = real("f", lo=0)
    low, high = K(F(1, 2)), K(1)
    for fs, r in ((8, 2), (12, 2)) if not c.thorough else ((8, 2), (12, 2), (6, 3), (16, 2)):
        s = fs // r
        lab = ", %d samples per symbol" % s
        a = lambda x, fs=fs, r=r: [x, K(fs), K(r), K(1)]
        add("bpsk::tx_bpsk_signal", a, bitsm, 2 * s + 1, lambda n, s=s: n // s + 1, lab)
        add("bpsk::rx_bpsk_signal", a, reals, 3, lambda n, s=s: (n + 1) * s, lab)
        add("qpsk::tx_qpsk_signal", a, bitsm, 2 * s + 1, lambda n, s=s: 2 * (n // s) + 2, lab)
        add("qpsk::rx_qpsk_signal", a, reals, 5, lambda n, s=s: (n // 2 + 1) * s, lab)
        add("fm::tx_fsk", a, bitsm, 2 * s + 1, lambda n, s=s: n // s + 1, lab)
        add("fm::rx_fsk", a, reals, 3, lambda n, s=s: (n + 1) * s, lab)
        add("fsk::tx_bfsk_signal", lambda x, fs=fs, r=r: [x, K(fs), K(r), low, high], bitsm, 2 * s + 1, lambda n, s=s: n // s + 1, lab)
        add("fsk::tx_mfsk_signal", lambda x, fs=fs, r=r: [x, K(fs), K(r), low, high, K(2)], bitsm, 2 * s + 1, lambda n, s=s: n // s + 1, lab)
        add("fsk::tx_fsk_signal", lambda x, fs=fs, r=r: [x, K(fs), K(r), V.lit([high, low])], bitsm, 2 * s + 1, lambda n, s=s: n // s + 1, lab)
        add("fh::tx_fh_bpsk_signal", lambda x, fs=fs, r=r: [x, low, high, K(2), K(fs), K(r)], bitsm, 2 * s + 1, lambda n, s=s: n // s + 1, lab)
        add("fh::rx_fh_bpsk_signal", lambda x, fs=fs, r=r: [x, low, high, K(2), K(fs), K(r)], reals, 3, lambda n, s=s: (n + 1) * s, lab)
        add("fh::tx_fh_bpsk_signal_old", lambda x, fs=fs, r=r: [x, low, high, K(2), K(fs), K(r), K(1)], bitsm, 2 * s + 1, lambda n, s=s: n // s + 1, lab)
        add("fh_css::tx_fh_css_signal", lambda x, fs=fs, r=r: [x, K(fs), K(r), low, high, K(2)], bitsm, 2 * s + 1, lambda n, s=s: n // s + 1, lab)
        add("fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal", lambda x, fs=fs, r=r: [x, low, high, K(2), K(fs), K(r)], bitsm, 10 * s + 1,
            lambda n, s=s: (n // (10 * s) + 1) * 7, lab)
        add("fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal_2", a, bitsm, 10 * s + 1, lambda n, s=s: (n // (10 * s) + 1) * 7, lab)
    add("fm::tx_fm", lambda x: [x, K(8), K(2), K(1)], reals, 9, lambda n: n + 1)
    add("fh_ofdm_dcsk::tx_baseband_fh_ofdm_dcsk_signal", lambda x: [x], bitsm, 21, lambda n: (n // 10 + 1) * 7)
    add("fh_ofdm_dcsk::rx_baseband_fh_ofdm_dcsk_signal", lambda x: [x], flatc, 15, lambda n: (n // 7 + 1) * 10)
    for n in (2, 4):
        key = kbits(n)
        lab = ", key of %d" % n
        add("cdma::tx_baseband_cdma", lambda x, k=key: [x, k], bitsm, 2 * n + 1, lambda i, n=n: i // n + 1, lab)
        add("cdma::rx_baseband_cdma", lambda x, k=key: [x, k], bitsm, 3, lambda i, n=n: (i + 1) * n, lab)
        fs, r = 4 * n, 2
        s = 2 * n
        a = lambda x, k=key, fs=fs, r=r: [x, K(fs), K(r), K(1), k]
        add("cdma::tx_cdma_bpsk_signal", a, bitsm, 2 * s + 1, lambda i, s=s: i // s + 1, lab)
        add("cdma::rx_cdma_bpsk_signal", a, reals, 3, lambda i, s=s: (i + 1) * s, lab)
        add("cdma::tx_cdma_qpsk_signal", a, bitsm, 2 * s + 1, lambda i, s=s: 2 * (i // s) + 2, lab)
        add("cdma::rx_cdma_qpsk_signal", a, reals, 5, lambda i, s=s: (i // 2 + 1) * s, lab)
        if n == 2:
            add("cdma::tx_coded_cdma_bpsk_signal", a, bitsm, 2 * s + 1, lambda i, s=s: (i // s // 96 + 1) * 56, lab)
            add("cdma::rx_coded_cdma_bpsk_signal", a, flatr, 2, lambda i, s=s: (i // 56 + 1) * 96 * s, lab)
    for S, P in ((4, 1), (8, 2)):
        D = S - P
        lab = ", %d subcarriers, %d pilots" % (S, P)
        W = S + S // 4
        add("ofdm::tx_baseband_ofdm_signal", lambda x, S=S, P=P: [x, K(S), K(P)], cplxs, 2 * W + 1, lambda n, D=D, W=W: (n // W + 1) * D, lab)
        add("ofdm::rx_baseband_ofdm_signal", lambda x, S=S, P=P: [x, K(S), K(P)], cplxs, 2 * D + 1, lambda n, D=D, W=W: (n // D + 1) * W, lab)
        add("ofdm::tx_ofdm_qpsk_signal", lambda x, S=S, P=P: [x, K(S), K(P), K(8), K(2), K(1)], bitsm, 4 * W + 1,
            lambda n, D=D, W=W: (n // (4 * W) + 1) * 2 * D, lab)
        add("ofdm::rx_ofdm_qpsk_signal", lambda x, S=S, P=P: [x, K(S), K(P), K(8), K(2), K(1)], reals, 2 * D + 1,
            lambda n, D=D, W=W: (n // (2 * D) + 1) * W * 4, lab)
    add("bpf::bandpass", lambda x: [real("lo"), real("hi"), x, K(8), K(4)], reals, 9, lambda n: (n // 4 + 1) * 4)
    return t


@prop("C05", 60)
def c05(c):
    from ..demand import Demand, Endless
    c.explain = ("Every stream stage is driven output by output over a tape: the bodies of the crate are interpreted abstractly "
                 "on symbolic items, the standard adapters are stepped by their documented next(), and the items taken from the "
                 "tape while building the stage and before each output are counted and compared with the stage's block structure.")
    for path, mk, item, N, bound, lab, targs in stages(c):
        def f():
            D = Demand()
            I = c.interp()
            I.demand = D
            try:
                v, st, _ = c.call(path, mk(D.tape(item)), targs, I=I)
                if D.reads:
                    raise Bad("reads %d items of its input while it is built" % D.reads, path, got=D.reads, want=0)
                for n in range(N):
                    x, v = D.pull(I, st, v)
                    if not D.some(x):
                        raise Bad("ends after %d items although the input does not" % n, path)
                    if D.reads > bound(n):
                        raise Bad("has read %d items of its input when output %d appears; %d suffice" % (D.reads, n, bound(n)),
                                  path, got=D.reads, want=bound(n))
            except Endless as e:
                raise Bad(str(e), path)
            except interp.Diverge:
                raise Bad("panics", path)
            finally:
                c.called |= I.called
            return "%d outputs, %d items read" % (N, D.reads)
        c.ob("%s%s reads no further than its output needs" % (path, lab), path, guarded(f))


# ------------------------------------------------------------------ C17
def outcome(c, path, args):
    """does the call with this configuration panic?  (accepted, condition under which it does not)"""
    I = c.interp()
    try:
        c.call(path, args, I=I)
    except interp.Diverge:
        return False, ZERO
    ok = ONE
    for pc, cond, _, _, _ in I.panics:
        g = cond
        for q in pc:
            if q is not ONE and not (isinstance(q, T.Poly) and q is cond):
                g = g * q
        ok = ok * (ONE - g)
    return True, ok


def none():
    return src("x", K(0))


def kbits(n):
    return V.lit([T.elem("key", K(i), isbool=True) for i in range(n)])


# function, arguments as a function of (message, fs, rate, f), does it check the frequency
def table(c):
    key = kbits(4)
    t = []

    def add(path, mk, freq=True, chips=1, msg=True):
        t.append((path, mk, freq, chips, msg))
    add("bpsk::tx_bpsk_signal", lambda m, fs, r, f: [m, fs, r, f])
    for q in ("tx_cdma_bpsk_signal", "rx_cdma_bpsk_signal", "tx_coded_cdma_bpsk_signal", "rx_coded_cdma_bpsk_signal",
              "tx_cdma_qpsk_signal", "rx_cdma_qpsk_signal"):
        add("cdma::" + q, lambda m, fs, r, f: [m, fs, r, f, key], chips=4)
    for q in ("tx_fh_bpsk_signal", "rx_fh_bpsk_signal"):
        add("fh::" + q, lambda m, fs, r, f: [m, K(F(1, 2)), f, K(2), fs, r])
    add("fh::tx_fh_bpsk_signal_old", lambda m, fs, r, f: [m, K(1), K(3), K(2), fs, r, f])
    add("fh_css::tx_fh_css_signal", lambda m, fs, r, f: [m, fs, r, K(F(1, 2)), f, K(2)])
    add("fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal", lambda m, fs, r, f: [m, K(F(1, 2)), f, K(2), fs, r])
    add("fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal_2", lambda m, fs, r, f: [m, fs, r, f])
    add("fsk::tx_bfsk_signal", lambda m, fs, r, f: [m, fs, r, K(1), f])
    add("fsk::tx_mfsk_signal", lambda m, fs, r, f: [m, fs, r, K(F(1, 2)), f, K(2)])
    add("fsk::tx_fsk_signal", lambda m, fs, r, f: [m, fs, r, V.lit([f, K(1)])])
    add("ofdm::tx_ofdm_qpsk_signal", lambda m, fs, r, f: [m, K(4), K(1), fs, r, f], freq=False)
    add("ofdm::rx_ofdm_qpsk_signal", lambda m, fs, r, f: [m, K(4), K(1), fs, r, f], freq=False)
    for q in ("tx_csk", "tx_dcsk"):
        add("module_with_functions::" + q, lambda m, fs, r, f: [V.gen(K(0), lambda i: B(i)), fs, r], freq=False, msg=False)
    return t


@prop("C17", 60)
def c17(c):
    c.rejects = True
    RATES = [(16, 4), (32, 8), (48, 4), (8, 1), (64, 16)]
    BADR = [(16, 3), (32, 5), (48, 7), (100, 8), (10, 4)]
    if c.thorough:
        RATES += [(80, 10), (44100, 100), (96, 2)]
        BADR += [(16, 5), (16, 6), (44100, 11), (81, 2)]
    for path, mk, freq, chips, msg in table(c):
        def rej(args, why, path=path):
            def f():
                acc, ok = outcome(c, path, args)
                if not acc or ok.is_zero():
                    return "rejected"
                if not ok.is_const():
                    raise T.Undecided("outcome depends on the data")
                raise Bad("accepts %s" % why, path)
            return f

        def acc(args, why, path=path):
            def f():
                a, ok = outcome(c, path, args)
                if not a or ok.is_zero():
                    raise Bad("rejects %s" % why, path)
                if not ok.is_const():
                    raise T.Undecided("outcome depends on the data")
                return "accepted"
            return f
        for fs, r in RATES:
            if fs % (r * chips) or chips * r * 2 > fs:
                continue
            lab = "sample rate %d, symbol rate %d" % (fs, r)
            for fc in sorted({1, fs // 4, fs // 2}):
                why = lab + (", frequency %d" % fc if freq else "")
                c.ob("%s accepts %s" % (path, why), path, acc(mk(none(), K(fs), K(r), K(fc)), why))
                if not freq:
                    break
            if freq:
                for fc in (fs // 2 + 1, fs, 2 * fs):
                    why = lab + ", frequency %d" % fc
                    c.ob("%s rejects %s" % (path, why), path, rej(mk(none(), K(fs), K(r), K(fc)), why))

                def every():
                    f = nat("f", 1)
                    a, ok = outcome(c, path, mk(none(), K(fs), K(r), f))
                    if not a:
                        raise Bad("rejects every frequency at " + lab, path)
                    c.same(ok, T.ge0(K(fs // 2) - f), what="accepted frequencies", where=path)
                c.ob("%s accepts exactly the frequencies up to half the rate at %s" % (path, lab), path, guarded(every))
        for fs, r in BADR:
            why = "sample rate %d, symbol rate %d" % (fs, r)
            if chips * r * 2 > fs:
                continue
            c.ob("%s rejects %s" % (path, why), path, rej(mk(none(), K(fs), K(r), K(1)), why))
        if chips > 1:
            for fs, r in ((24, 3), (36, 3), (60, 6), (30, 3)):
                why = "sample rate %d, symbol rate %d, %d chips" % (fs, r, chips)
                a = mk(none(), K(fs), K(r), K(1))
                c.ob("%s %s %s" % (path, "accepts" if fs % (r * chips) == 0 else "rejects", why), path,
                     acc(a, why) if fs % (r * chips) == 0 else rej(a, why))
            for fs, r in ((16, 4), (20, 5), (8, 2)):
                why = "sample rate %d, symbol rate %d, %d chips: chip rate above half the sample rate" % (fs, r, chips)
                c.ob("%s rejects %s" % (path, why), path, rej(mk(none(), K(fs), K(r), K(1)), why))
    x0 = real("x0")

    def interval(path, args, lo, hi):
        def f():
            a, ok = outcome(c, path, args)
            if not a:
                raise Bad("rejects every initial value", path)
            c.same(ok, (ONE - T.pos(K(lo) - x0)) * (ONE - T.pos(x0 - K(hi))), what="accepted initial values", where=path)
        return guarded(f)
    p = "chaos::chebyshev::Chebyshev::new"
    c.ob("the Chebyshev generator accepts exactly [-1,1]", p, interval(p, [x0], -1, 1))

    def point(path, args, want, why):
        def f():
            a, ok = outcome(c, path, args)
            if not ok.is_const():
                raise T.Undecided("outcome depends on the data")
            if (a and not ok.is_zero()) != want:
                raise Bad("%s %s" % ("rejects" if want else "accepts", why), path)
        c.ob("%s %s %s" % (path, "accepts" if want else "rejects", why), path, guarded(f))
    for v, w in ((F(-1), True), (F(1), True), (F(0), True), (F(1, 2), True), (F(-1, 2), True), (F(11, 10), False), (F(-11, 10), False)):
        point(p, [K(v)], w, "initial value %s" % v)
    p = "chaos::logistic_map::LogisticMap::new"
    c.ob("the logistic generator accepts exactly [0,1]", p, interval(p, [real("mu"), x0], 0, 1))
    for v, w in ((F(-1), False), (F(1), True), (F(0), True), (F(1, 2), True), (F(-1, 10), False), (F(11, 10), False)):
        point(p, [K(3), K(v)], w, "initial value %s" % v)
    p = "hadamard::HadamardMatrix::new"
    for n in range(1, 20 if not c.thorough else 36):
        pw = n & (n - 1) == 0

        def had():
            a, ok = outcome(c, p, [K(n)])
            if pw and (not a or ok.is_zero()):
                raise Bad("rejects size %d" % n, p)
            if not pw and a and ok is ONE:
                raise Bad("accepts size %d" % n, p)
            if not ok.is_const():
                raise T.Undecided("outcome depends on data")
        c.ob("the Walsh code generator %s size %d" % ("accepts" if pw else "rejects", n), p, guarded(had))
    p = "ssca::ssca_base"
    for n, m in ((4, 4), (4, 8), (8, 16)):
        def ss():
            a, ok = outcome(c, p, [V.gen(K(64), lambda i: X(i)), K(n), K(m)])
            if a and ok is ONE:
                raise Bad("accepts resolution %d by %d" % (n, m), p)
            if not ok.is_zero():
                raise T.Undecided("outcome not decided")
        c.ob("the spectral correlation analyzer rejects resolution %d by %d" % (n, m), p, guarded(ss))


# the operations of the crate (by path)
ENTRY = """
<chaos::chebyshev::Chebyshev as std::iter::Iterator>::next
<chaos::logistic_map::LogisticMap as std::iter::Iterator>::next
<f64 as IsNan>::is_nan
<fh::HopTable as std::iter::Iterator>::next
<hadamard::HadamardMatrix as std::fmt::Display>::fmt
<iter::chunks::Chunks<T, I> as std::iter::Iterator>::next
<iter::chunks::WholeChunks<T, I> as std::iter::Iterator>::next
<iter::convolution::Convolver<T, I> as std::iter::Iterator>::next
<iter::convolution::Nonvolver<T, I, N> as std::iter::Iterator>::next
<iter::inflate::Inflate<T, I> as std::iter::Iterator>::next
<iter::integrate::Integrate<T, I> as std::iter::Iterator>::next
<iter::integrate::IntegrateDump<T, I> as std::iter::Iterator>::next
<iter::integrate::Nintegrate<T, I, N> as std::iter::Iterator>::next
<iter::integrate::NintegrateDump<T, I, N> as std::iter::Iterator>::next
<iter::scale::Scale<T, I> as std::iter::Iterator>::next
<iter::take_every::Take<T, I> as std::iter::Iterator>::next
<num_complex::Complex<f64> as IsNan>::is_nan
avg_energy
avg_energy_py
awgn
awgn_complex
awgn_py
bch::bch_stream_decode
bch::bch_stream_encode
ber
bit_to_nrz
bool_to_u8
bools_to_u8s
bpf::bandpass
bpf::butterpass
bpsk::rx_baseband_bpsk_signal
bpsk::rx_bpsk_signal
bpsk::tx_baseband_bpsk_signal
bpsk::tx_bpsk_signal
cdma::rx_baseband_cdma
cdma::rx_cdma_bpsk_signal
cdma::rx_cdma_qpsk_signal
cdma::rx_coded_cdma_bpsk_signal
cdma::tx_baseband_cdma
cdma::tx_cdma_bpsk_signal
cdma::tx_cdma_qpsk_signal
cdma::tx_coded_cdma_bpsk_signal
chaos::bernoulli_map
chaos::chebyshev::Chebyshev::new
chaos::chebyshev::chebyshev
chaos::logistic_map::LogisticMap::new
chaos::logistic_map::logistic_map
chaos::tent_map
chirp
costas::CostasLoop::new
costas::CostasLoop::update
csk::rx_baseband_csk
csk::tx_baseband_csk
db
dcs_detector
dcs_detector_sxf
dcsk::rx_baseband_dcsk
dcsk::tx_baseband_dcsk
energy
energy_detector
erf
erfc
fftshift
fftshift_mut
fh::HopTable::new
fh::rx_fh_bpsk_signal
fh::tx_fh_bpsk_signal
fh::tx_fh_bpsk_signal_old
fh_css::linear_chirp
fh_css::linear_downchirp_centered
fh_css::linear_upchirp_centered
fh_css::tx_fh_css_signal
fh_ofdm_dcsk::rx_baseband_fh_ofdm_dcsk_signal
fh_ofdm_dcsk::tx_baseband_fh_ofdm_dcsk_signal
fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal
fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal_2
filters::rrcosfilter
fm::rx_fsk
fm::tx_fm
fm::tx_fsk
fsk::rx_bfsk_signal
fsk::tx_bfsk_signal
fsk::tx_fsk_signal
fsk::tx_mfsk_signal
hadamard::HadamardMatrix::key
hadamard::HadamardMatrix::new
hamming_window
hamming_window_complex
is_int
iter::Iter::chunks
iter::Iter::convolve
iter::Iter::inflate
iter::Iter::integrate
iter::Iter::integrate_and_dump
iter::Iter::nintegrate
iter::Iter::nintegrate_and_dump
iter::Iter::nonvolve
iter::Iter::scale
iter::Iter::take_every
iter::Iter::wchunks
iter::chunks::Chunks::<T, I>::new
iter::chunks::WholeChunks::<T, I>::new
iter::convolution::Convolver::<T, I>::_convolve
iter::convolution::Convolver::<T, I>::new
iter::convolution::Nonvolver::<T, I, N>::_nonvolve
iter::convolution::Nonvolver::<T, I, N>::new
iter::inflate::Inflate::<T, I>::new
iter::integrate::Integrate::<T, I>::new
iter::integrate::IntegrateDump::<T, I>::new
iter::integrate::Nintegrate::<T, I, N>::new
iter::integrate::NintegrateDump::<T, I, N>::new
iter::scale::Scale::<T, I>::new
iter::take_every::Take::<T, I>::new
linspace
max_cut_detector
max_cut_detector_sxf
module_with_functions::rx_bpsk
module_with_functions::rx_ofdm
module_with_functions::rx_qpsk
module_with_functions::tx_baseband_bpsk
module_with_functions::tx_bfsk
module_with_functions::tx_bpsk
module_with_functions::tx_cdma_bpsk
module_with_functions::tx_csk
module_with_functions::tx_dcsk
module_with_functions::tx_fh_css
module_with_functions::tx_fh_ofdm_dcsk
module_with_functions::tx_ofdm
module_with_functions::tx_qpsk
no_nans
ofdm::get_data_subcarriers
ofdm::rx_baseband_ofdm_signal
ofdm::rx_ofdm_qpsk_signal
ofdm::tx_baseband_ofdm_signal
ofdm::tx_ofdm_qpsk_signal
power
pure_awgn
qpsk::rx_baseband_qpsk_signal
qpsk::rx_qpsk_signal
qpsk::tx_baseband_qpsk_signal
qpsk::tx_qpsk_signal
random_data
ssca::ssca_base
ssca::ssca_mapped
ssca_py
u8_to_bools
u8s_to_bools
undb
willie::energy_detector
willie::normal_detector
willie::normaltest
""".strip().split("\n")
