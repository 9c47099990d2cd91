"""Meaning of the library calls used by the crate, over the abstract values of kv.val."""
from fractions import Fraction
from . import term as T
from . import val as V
from .term import Poly, Undecided, ZERO, ONE
from .val import Agg, Enum, Seq, Seg, Stream, SymSeq, OpSeq, Closure, Fn, Ref, Sym, Str, Discr, Opaque, INF

MODELS = {}
ITER = "std::iter::Iterator"


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def ident(*names):
    for n in names:
        MODELS[n] = lambda I, st, a, f: a[0]


def cint(p):
    return int(p.cval()) if isinstance(p, Poly) and p.is_const() and p.cval().denominator == 1 else None


def dr(I, st, v):
    return I.deref(st, v)


def sc(I, st, v):
    return I.scalar(I.deref(st, v))


def clamp0(t):
    if T.nonneg(t):
        return t
    if T.nonneg(-t):
        return ZERO
    c = T.ge0(t)
    return c * t


def imin(a, b):
    if a is INF:
        return b
    if b is INF:
        return a
    if T.nonneg(b - a):
        return a
    if T.nonneg(a - b):
        return b
    return T.ite(T.ge0(b - a), a, b)


def require(I, st, c, text, f=None):
    c = T.renorm(c)
    if c is ONE:
        return
    I.panics.append((st.path, ONE - c, I.where(), None, text))
    if c.is_zero():
        from .interp import Diverge
        raise Diverge()
    st.path = st.path + (c,)


# ---------------------------------------------------------------- iterators

def iter_impl(I, v):
    if isinstance(v, Agg):
        return I.d.impl_of.get((ITER, v.name))
    return None


RANGE = "std::ops::Range"


def is_iter(I, v):
    return isinstance(v, Stream) or iter_impl(I, v) is not None or \
        isinstance(v, Agg) and v.name in (RANGE, "std::ops::RangeFrom", "std::ops::RangeInclusive")


def as_seq(I, st, v):
    """remaining items of an iterator value (or of an IntoIterator) as a sequence"""
    if isinstance(v, Opaque):
        raise Undecided(v.why)
    if isinstance(v, Ref):
        t = I.deref(st, v)
        if isinstance(t, Seq) or isinstance(t, (SymSeq, OpSeq)):
            return V.gen(V.seq_len(t), lambda i: Ref(v.cell, v.path + (("ix", i),)))
        raise Undecided("adapter over a borrowed iterator")
    if isinstance(v, Stream):
        s = v.seq
        if isinstance(s, Seq):
            return V.drop(s, v.pos)
        n = V.seq_len(s)
        return V.gen(n - v.pos, lambda i: V.seq_at(s, i + v.pos))
    if isinstance(v, Seq):
        return v
    if isinstance(v, (SymSeq, OpSeq)):
        return V.gen(V.seq_len(v), lambda i: V.seq_at(v, i))
    if isinstance(v, Agg) and v.name == RANGE:
        lo, hi = [I.scalar(x) for x in v.fields]
        return V.gen(clamp0(hi - lo), lambda i: lo + i)
    if isinstance(v, Agg) and v.name == "std::ops::RangeInclusive":
        lo, hi = [I.scalar(x) for x in v.fields[:2]]
        return V.gen(clamp0(hi - lo + 1), lambda i: lo + i)
    if isinstance(v, Agg) and v.name == "std::ops::RangeFrom":
        lo = I.scalar(v.fields[0])
        return V.gen(INF, lambda i: lo + i)
    if isinstance(v, Enum) and v.adt == V.OPT:
        g = v.guard(1)
        if g.is_zero():
            return Seq([])
        return Seq([Seg(g, None, v.fields(1)[0])])
    im = iter_impl(I, v)
    if im is not None:
        return local_seq(I, st, v, im)
    raise Undecided("not an iterator: %s" % (v.name if isinstance(v, Agg) else type(v).__name__))


def stream(s):
    return Stream(s, ZERO)


def local_next(I, v, im):
    key = dict(im["items"]).get("next")
    body = I.d.bodies.get(key)
    if body is None:
        raise Undecided("next() of %s" % v.name)
    env = {}
    if v.targs and isinstance(im["self"], dict):
        from .interp import bind_ty
        bind_ty(im["self"].get("args", []), v.targs, env)
    return body, env


def next_seq(I, st, v, callnext, what):
    """items of an iterator given by its transition function"""
    from . import loops
    from .interp import new_id
    cell = (new_id("it"), 0)
    store = dict(st.store)
    store[cell] = v
    p = loops.NextProblem(I, cell, callnext)
    npan = len(I.panics)
    r = None
    try:
        with T.deadline(10):
            r = loops.induct_seq(p, store, st.path)
    except Undecided as e:
        if I.trace:
            print("induct", what, e)
    if r is not None:
        return tidy(r)
    del I.panics[npan:]
    try:
        with T.deadline(10):
            r = loops.phases_seq(p, store, st.path, lambda o: concat(I, lambda x: x, o), tidy)
    except Undecided as e:
        if I.trace:
            print("phases", what, e)
    if r is not None:
        return tidy(r)
    del I.panics[npan:]
    with T.deadline(10):
        out = loops.solve(p, store, st.path, streams=True)
    # state outside the iterator's own cell must be untouched by lazy iteration
    for _, _, s in out.exits:
        if s is None:
            continue
        for k, x in list(st.store.items()):
            if k in s.store and s.store[k] is not x and s.store[k] != x:
                st.store[k] = Opaque("written by lazy iteration")
    return tidy(Seq(out.segs))


def local_seq(I, st, v, im):
    with T.assume(*st.path):
        ck = (v.name, v, T.CTX.gen)
    c = I.stream_cache.get(ck)
    if c is not None:
        if isinstance(c, Exception):
            raise c
        return c
    w = collapse(I, st, v)
    if w is not None:
        try:
            r = local_seq(I, st, w, im)
            if not any(T.ATOMS[a].kind == "app" and str(T.ATOMS[a].args[0]).startswith("item:") for a in T.atoms_rec(r)):
                I.stream_cache[ck] = r
                return r
        except (Undecided, AttributeError, TypeError):
            pass
    w, fns = abstract_items(v)
    if w is not None:
        try:
            r = subst_items(local_seq(I, st, w, im), fns)
            I.stream_cache[ck] = r
            return r
        except (Undecided, AttributeError, TypeError):
            pass
    body, env = local_next(I, v, im)

    def callnext(s, ref):
        return I.run_body(body, [ref], s, env)
    try:
        with T.assume(*st.path):
            try:
                r = next_seq(I, st, v, callnext, v.name)
            except Undecided as e:
                if I.trace:
                    print("local iterator", v.name, "unsolved:", e)
                r = opaque_iter(I, v, body, env)
                if r is None:
                    raise
                I.uninterpreted.add(v.name)
        I.stream_cache[ck] = r
        return r
    except Undecided as e:
        I.stream_cache[ck] = e
        raise


def collapse(I, st, v):
    """an iterator over endless iterators of the crate: replace those by the sequences they yield"""
    out = list(v.fields)
    hit = False
    for i, f in enumerate(out):
        im = iter_impl(I, f)
        if im is None:
            continue
        try:
            s = local_seq(I, st, f, im)
        except Undecided:
            continue
        if isinstance(s, Seq) and s.length() is INF:
            out[i] = Stream(s, ZERO)
            hit = True
    return v.rebuild(out) if hit else None


def opaque_iter(I, v, body, env):
    """a deterministic iterator whose recurrence has no closed form: item i is an uninterpreted function
    of the transition function and the initial state"""
    from .interp import subst_ty
    ty = subst_ty(body["locals"][0], env)
    item = ty["args"][0] if isinstance(ty, dict) and ty.get("args") else None
    if item != "f64" or T.opaques(v):
        return None
    if not I.pure(body):
        return None
    return V.gen(INF, lambda i: T.app("item:" + v.name, v, i))


def tidy(s):
    """join adjacent runs that share a closed form, and simplify templates"""
    segs = [clean_seg(x) for x in s.segs]
    changed = True
    while changed:
        changed = False
        for i in range(len(segs) - 1):
            j = join_segs(segs[i], segs[i + 1])
            if j is not None:
                segs[i:i + 2] = [clean_seg(j)]
                changed = True
                break
    return Seq(segs, s.kind)


def clean_seg(s):
    return s


def veq(a, b):
    if a is b or a == b:
        return True
    a, b = V.norm_val(a), V.norm_val(b)
    return a == b


def join_segs(a, b):
    if a.len is INF:
        return None
    la = a.len
    ln = INF if b.len is INF else la + b.len
    # extend b's closed form backwards over a
    c = cint(la)
    try:
        if b.v is not None or a.v is None:
            if c is not None and c <= 4:
                ok = all(veq(a.at(T.const(i)), b.at(T.const(i) - la)) for i in range(c))
            else:
                w = T.fresh("i", lo=0, hi=la - 1)
                ok = veq(a.at(w), b.at(w - la))
            if ok:
                w = T.fresh("i", lo=0, hi=None if ln is INF else ln - 1)
                return V.mkseg(ln, w, b.at(w - la))
        # extend a forwards over b
        if a.v is not None or b.v is None:
            c = cint(b.len) if b.len is not INF else None
            if c is not None and c <= 4:
                ok = all(veq(b.at(T.const(i)), a.at(la + i)) for i in range(c))
            else:
                w = T.fresh("i", lo=0, hi=None if b.len is INF else b.len - 1)
                ok = veq(b.at(w), a.at(w + la))
            if ok:
                w = T.fresh("i", lo=0, hi=None if ln is INF else ln - 1)
                return V.mkseg(ln, w, a.at(w))
    except Undecided:
        return None
    return None


def unchanged(a, b):
    """stores agree on the cells of a"""
    for k, x in a.items():
        y = b.get(k)
        if y is not x and y != x:
            return False
    return True


def apply_pure(I, st, fv, args):
    """call a function value that must not touch any state"""
    from .interp import State
    s = State(dict(st.store), st.path)
    with T.assume(*s.path):
        r = I.call_value(fv, args, s)
    if not unchanged(st.store, s.store):
        raise Undecided("lazy closure with side effects")
    return r


def is_stateful(I, fv):
    return I.closure_is_mut(fv)


def map_seq(I, st, fv, seq, keep=False):
    """items of iter.map(fv)"""
    if is_stateful(I, fv):
        try:
            return map_state(I, st, fv, seq)
        except StateFree:
            pass
    segs = []
    for s in seq.segs:
        if s.v is None and (s.len is ONE or not keep):
            segs.append(Seg(s.len, None, apply_pure(I, st, fv, [s.t])))
            continue
        w = T.fresh("i", lo=0, hi=None if s.len is INF else s.len - 1)
        segs.append(V.mkseg(s.len, w, apply_pure(I, st, fv, [s.at(w)])))
    return Seq(segs, seq.kind)


class StateFree(Exception):
    pass


def map_state(I, st, fv, seq):
    from . import loops
    from .interp import new_id, State
    cell = (new_id("cl"), 0)
    # a single symbolic application that leaves the captured state alone is a pure map
    n = seq.length()
    s0 = State(dict(st.store), st.path)
    s0.store[cell] = fv
    before = dict(s0.store)
    w = T.fresh("i", lo=0, hi=None if n is INF else n - 1)
    pure = True
    try:
        with T.assume(*s0.path):
            for g in seq.segs:
                s1 = State(dict(s0.store), s0.path)
                I.call_value(Ref(cell), [g.at(w)], s1)
                if not unchanged(before, s1.store):
                    pure = False
                    break
    except Undecided:
        pure = False
    if pure:
        segs = []
        for g in seq.segs:
            w = T.fresh("i", lo=0, hi=None if g.len is INF else g.len - 1)
            s1 = State(dict(s0.store), s0.path)
            with T.assume(*s0.path):
                y = I.call_value(Ref(cell), [g.at(w)], s1)
            segs.append(V.mkseg(g.len, w, y))
        return Seq(segs, seq.kind)
    store = dict(st.store)
    store[cell] = fv

    def call(s, k):
        return I.call_value(Ref(cell), [seq.at(k)], s)
    k0 = I.handles
    out = solve_map(I, call, n, store, st.path, streams=True)
    if out.end is None:
        s1 = State(dict(store), st.path)
        with T.assume(*st.path):
            call(s1, T.fresh("i", lo=0, hi=None if n is INF else n - 1))
        for k, v in list(st.store.items()):
            y = s1.store.get(k)
            if k != "entropy" and y is not v and y != v:
                st.store[k] = Opaque("written by a lazy closure")
        if I.handles != k0:
            st.store["entropy"] = Opaque("randomness taken by an endless stream")
    else:
        for k, v in list(st.store.items()):
            y = out.end[1].get(k)
            if y is v or y == v:
                continue
            # draws are never repeated: when they are taken does not matter
            if k == "entropy" and isinstance(y, Poly) or is_entropy(v) and is_entropy(y):
                st.store[k] = y
            else:
                # the stream borrows the cell for as long as it lives; how much of it will be consumed is not known
                st.store[k] = Opaque("written by a lazy closure")
    return tidy(Seq(out.segs, seq.kind))


def solve_map(I, call, n, store, path, streams):
    from . import loops
    p = loops.MapProblem(I, call, n)
    return loops.solve(p, store, path, streams=streams)


def run_effects(I, st, call, n):
    """apply call(st, k) for k = 0..n for its effects"""
    from .interp import State
    c = cint(n) if n is not INF else None
    if c is not None and c <= 64:
        for i in range(c):
            call(st, T.const(i))
        return
    out = solve_map(I, call, n, dict(st.store), st.path, False)
    if out.end is None:
        raise Undecided("loop end")
    alive, store, path = out.end
    st.store.clear()
    st.store.update(store)


def concat(I, seqs_of, outer):
    """flatten: outer is a Seq whose items are sequences"""
    segs = []
    for s in outer.segs:
        one = s.len is ONE
        inner0 = s.t if s.v is None else None
        w = T.fresh("i", lo=0, hi=None if s.len is INF else s.len - 1)
        it = seqs_of(s.at(w) if s.v is not None else s.t)
        if one:
            w0 = {T.the_atom(w).id: ZERO}
            segs.extend(T.vsubst(it, w0).segs if s.v is not None else it.segs)
            continue
        if s.len is not INF and T.is_boolp(s.len):
            w0 = {T.the_atom(w).id: ZERO}
            it = T.vsubst(it, w0)
            for g in it.segs:
                if g.len is INF:
                    raise Undecided("flatten")
                segs.append(Seg(s.len * g.len, g.v, g.t))
            continue
        m = it.length()
        if m is INF:
            raise Undecided("flatten of infinite items")
        m = T.renorm(m)
        if m.is_zero():
            continue
        if T.the_atom(w).id in m.fv():
            raise Undecided("flatten of items of varying length")
        ln = INF if s.len is INF else s.len * m
        wid = T.the_atom(w).id
        i = T.fresh("i", lo=0, hi=None if ln is INF else ln - 1)
        if m is ONE:
            segs.append(V.mkseg(ln, i, T.vsubst(it.at(ZERO), {wid: i})))
            continue
        q = T.idiv(i, m)
        r = i - q * m
        l = it.lit()
        if l is not None:
            j = T.fresh("j", lo=0, hi=m - 1)
            x = it.at(j)
            jid = T.the_atom(j).id
            segs.append(V.mkseg(ln, i, T.vsubst(x, {wid: q, jid: r})))
            continue
        j = T.fresh("j", lo=0, hi=m - 1)
        x = it.at(j)
        segs.append(V.mkseg(ln, i, T.vsubst(x, {wid: q, T.the_atom(j).id: r})))
    return tidy(Seq(segs))


def zip_seq(a, b):
    sa, sb = list(a.segs), list(b.segs)
    out = []
    while sa and sb:
        x, y = sa[0], sb[0]
        if x.len is INF and y.len is INF:
            n, cut = INF, None
        elif x.len is INF:
            n = y.len
        elif y.len is INF:
            n = x.len
        elif T.nonneg(y.len - x.len):
            n = x.len
        elif T.nonneg(x.len - y.len):
            n = y.len
        else:
            ra, rb = Seq(sa), Seq(sb)
            la, lb = ra.length(), rb.length()
            n = imin(la, lb)
            w = T.fresh("i", lo=0, hi=None if n is INF else n - 1)
            out.append(V.mkseg(n, w, V.tup(ra.at(w), rb.at(w))))
            return Seq(out)
        w = T.fresh("i", lo=0, hi=None if n is INF else n - 1)
        out.append(V.mkseg(n, w, V.tup(x.at(w), y.at(w))))
        for q, s in ((sa, x), (sb, y)):
            if n is INF:
                q.pop(0)
            elif s.len is not INF and (s.len - n).is_zero():
                q.pop(0)
            else:
                q[0] = V.drop(Seq([s]), n).segs[0]
    return Seq(out)


def rev_seq(s):
    out = []
    for g in reversed(s.segs):
        if g.len is INF:
            raise Undecided("reverse of infinite sequence")
        w = T.fresh("i", lo=0, hi=g.len - 1)
        out.append(V.mkseg(g.len, w, g.at(g.len - 1 - w)))
    return Seq(out, s.kind)


def take_seq(s, k):
    n = s.length()
    if n is INF or T.nonneg(n - k):
        try:
            return V.take(s, k)
        except Undecided:
            return V.gen(k, lambda i: s.at(i))
    if T.nonneg(k - n):
        return s
    return V.gen(imin(n, k), lambda i: s.at(i))


def skip_seq(s, k):
    n = s.length()
    if n is INF or T.nonneg(n - k):
        try:
            return V.drop(s, k)
        except Undecided:
            return V.gen(INF if n is INF else n - k, lambda i: s.at(i + k))
    if T.nonneg(k - n):
        return Seq([])
    return V.gen(clamp0(n - k), lambda i: s.at(i + k))


def step_seq(s, k):
    n = s.length()
    if n is INF:
        return V.gen(INF, lambda i: s.at(i * k))
    return V.gen(ceil_div(n, k), lambda i: s.at(i * k))


def ceil_div(n, k):
    return T.idiv(n + k - 1, k)


def sum_seq(s):
    tot = None
    for g in s.segs:
        if g.len is INF:
            raise Undecided("sum of infinite sequence")
        w = T.fresh("s", lo=0, hi=g.len - 1)
        x = sum_val(g.len, w, g.at(w))
        tot = x if tot is None else vadd(tot, x)
    return tot


def sum_val(n, w, t):
    if isinstance(t, Poly):
        return T.msum(n, w, t)
    if isinstance(t, Agg):
        return Agg(t.name, [sum_val(n, w, x) for x in t.fields], t.targs)
    if isinstance(t, Opaque):
        raise Undecided(t.why)
    raise Undecided("sum of %s" % type(t).__name__)


def vadd(a, b, s=1):
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a + b if s == 1 else a - b
    if is_cplx(a) and isinstance(b, Poly):
        return V.cplx(vadd(a.fields[0], b, s), a.fields[1])
    if is_cplx(b) and isinstance(a, Poly):
        return V.cplx(vadd(a, b.fields[0], s), b.fields[1] if s == 1 else -b.fields[1])
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.fields) == len(b.fields):
        return Agg(a.name, [vadd(x, y, s) for x, y in zip(a.fields, b.fields)], a.targs)
    if V.is_seq(a) and V.is_seq(b):
        return elementwise(a, b, lambda x, y: vadd(x, y, s))
    raise Undecided("addition")


def elementwise(a, b, f):
    z = zip_seq(a, b)
    return Seq([remap(g, lambda t: f(*t.fields)) for g in z.segs], a.kind)


def remap(g, f):
    if g.v is None:
        return Seg(g.len, None, f(g.t))
    w = T.fresh("i", lo=0, hi=None if g.len is INF else g.len - 1)
    return V.mkseg(g.len, w, f(g.at(w)))


def is_cplx(v):
    return isinstance(v, Agg) and v.name == "Complex"


def vmul(a, b):
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a * b
    if is_cplx(a) and is_cplx(b):
        (x, y), (u, v) = a.fields, b.fields
        return V.cplx(x * u - y * v, x * v + y * u)
    if is_cplx(a) and isinstance(b, Poly):
        return V.cplx(a.fields[0] * b, a.fields[1] * b)
    if is_cplx(b) and isinstance(a, Poly):
        return vmul(b, a)
    if isinstance(a, Opaque):
        return a
    if isinstance(b, Opaque):
        return b
    raise Undecided("multiplication of %s" % type(a).__name__)


def vdiv(a, b):
    if isinstance(b, Poly):
        if T.renorm(b).is_zero():
            return T.app("div0", a)
        if isinstance(a, Poly):
            return T.div(a, b)
        if is_cplx(a):
            return V.cplx(T.div(a.fields[0], b), T.div(a.fields[1], b))
    if is_cplx(b):
        n = b.fields[0] * b.fields[0] + b.fields[1] * b.fields[1]
        return vdiv(vmul(a, V.cplx(b.fields[0], -b.fields[1])), n)
    if isinstance(a, Opaque):
        return a
    raise Undecided("division")


def vneg(a):
    if isinstance(a, Poly):
        return -a
    if isinstance(a, Agg):
        return Agg(a.name, [vneg(x) for x in a.fields], a.targs)
    raise Undecided("negation")


def veq_bool(a, b):
    """boolean poly for a == b"""
    if isinstance(a, Poly) and isinstance(b, Poly):
        if T.is_boolp(a) and T.is_boolp(b):
            return ONE - T.bxor(a, b)
        return T.eqz(a - b)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.fields) == len(b.fields):
        r = ONE
        for x, y in zip(a.fields, b.fields):
            r = r * veq_bool(x, y)
        return r
    if isinstance(a, Enum) and isinstance(b, Enum) and a.adt == b.adt:
        r = ZERO
        for i, g, f in a.vs:
            h = b.guard(i)
            if h.is_zero():
                continue
            e = g * h
            for x, y in zip(f, b.fields(i)):
                e = e * veq_bool(x, y)
            r = r + e
        return r
    if V.is_seq(a) and V.is_seq(b):
        la, lb = V.seq_len(a), V.seq_len(b)
        if la is INF or lb is INF:
            raise Undecided("comparison of infinite sequences")
        w = T.fresh("i", lo=0, hi=la - 1)
        ne = ONE - veq_bool(V.seq_at(a, w), V.seq_at(b, w))
        return T.eqz(la - lb) * T.eqz(T.msum(la, w, ne))
    if isinstance(a, Opaque):
        raise Undecided(a.why)
    raise Undecided("equality of %s" % type(a).__name__)


# ------------------------------------------------ Iterator methods

def it(name):
    return model("std::iter::Iterator::" + name)


@it("next")
def m_next(I, st, a, f):
    r = a[0]
    if not isinstance(r, Ref):
        raise Undecided("next on non-reference")
    v = I.read(st, r)
    while isinstance(v, Ref):
        r = v
        v = I.read(st, r)
    if isinstance(v, Opaque):
        return v
    im = iter_impl(I, v)
    if im is not None:
        body, env = local_next(I, v, im)
        return I.run_body(body, [r], st, env)
    if isinstance(v, Enum) and v.adt == V.OPT:
        I.write(st, r.cell, r.path, V.NONE)
        return v
    if not isinstance(v, Stream):
        v = stream(as_seq(I, st, v))
    n = V.seq_len(v.seq)
    pos = v.pos
    I.write(st, r.cell, r.path, Stream(v.seq, pos + 1))
    if n is INF:
        return V.some(V.norm_val(V.seq_at(v.seq, pos)))
    c = T.ge0(n - 1 - pos)
    if c.is_zero():
        return V.NONE
    with T.assume(c):
        x = V.norm_val(V.seq_at(v.seq, T.renorm(pos)))
    return V.opt(c, x)


@it("nth")
def m_nth(I, st, a, f):
    r = a[0]
    v = I.read(st, r)
    while isinstance(v, Ref):
        r = v
        v = I.read(st, r)
    k = sc(I, st, a[1])
    im = iter_impl(I, v)
    if im is not None:
        c = cint(k)
        if c is None or c > 16:
            v = stream(as_seq(I, st, v))
        else:
            body, env = local_next(I, v, im)
            for _ in range(c + 1):
                x = I.run_body(body, [r], st, env)
            return x
    if not isinstance(v, Stream):
        v = stream(as_seq(I, st, v))
    I.write(st, r.cell, r.path, Stream(v.seq, v.pos + k))
    return m_next(I, st, [r], f)


@model("std::iter::IntoIterator::into_iter")
def m_into_iter(I, st, a, f):
    v = a[0]
    if isinstance(v, Ref):
        t = I.deref(st, v)
        if V.is_seq(t):
            r = v
            while isinstance(I.read(st, r), Ref):
                r = I.read(st, r)
            return stream(as_seq(I, st, r))
        return v
    if V.is_seq(v):
        return stream(v)
    if is_iter(I, v):
        return v
    if isinstance(v, Enum) and v.adt == V.OPT:
        return stream(as_seq(I, st, v))
    if isinstance(v, Agg) and v.name == "NdLanes":
        return stream(v.fields[0])
    if isinstance(v, Agg) and v.name == "NdArray":
        return stream(nd_flat(v))
    if isinstance(v, Opaque):
        return v
    raise Undecided("into_iter of %s" % (v.name if isinstance(v, Agg) else type(v).__name__))


for _n in ("<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
           "std::slice::<impl [T]>::into_iter"):
    MODELS[_n] = m_into_iter


@model("core::slice::<impl [T]>::iter", "std::collections::VecDeque::<T, A>::iter", "std::slice::<impl [T]>::iter")
def m_iter(I, st, a, f):
    v = dr(I, st, a[0])
    if isinstance(v, Opaque):
        return v
    if not V.is_seq(v):
        raise Undecided("iter of %s" % type(v).__name__)
    return stream(v)


@model("core::slice::<impl [T]>::iter_mut", "std::collections::VecDeque::<T, A>::iter_mut")
def m_iter_mut(I, st, a, f):
    r = a[0]
    while isinstance(I.read(st, r), Ref):
        r = I.read(st, r)
    v = I.read(st, r)
    n = V.seq_len(v)
    if cint(n) is not None and cint(n) <= 64:
        return stream(V.lit([Ref(r.cell, r.path + (("ix", T.const(i)),)) for i in range(cint(n))]))
    return stream(V.gen(n, lambda i: Ref(r.cell, r.path + (("ix", i),))))


def adapter(name):
    def d(fn):
        def m(I, st, a, f):
            if isinstance(a[0], Opaque):
                return a[0]
            return stream(fn(I, st, as_seq(I, st, a[0]), a, f))
        MODELS["std::iter::Iterator::" + name] = m
        return fn
    return d


@it("map")
def m_map(I, st, a, f):
    if isinstance(a[0], Opaque):
        return a[0]
    s = kept(a[0], lambda c, y: V.tup(c, apply_pure(I, st, a[1], [y])))
    if s is not None:
        return Agg("Filtered", [s])
    return stream(map_seq(I, st, a[1], as_seq(I, st, a[0])))


@adapter("enumerate")
def m_enumerate(I, st, s, a, f):
    out = []
    off = ZERO
    for g in s.segs:
        w = T.fresh("i", lo=0, hi=None if g.len is INF else g.len - 1)
        out.append(V.mkseg(g.len, w, V.tup(w + off, g.at(w))))
        if g.len is INF:
            break
        off = off + g.len
    return Seq(out)


@adapter("zip")
def m_zip(I, st, s, a, f):
    return zip_seq(s, as_seq(I, st, a[1]))


@model("std::iter::zip")
def m_zip2(I, st, a, f):
    return stream(zip_seq(as_seq(I, st, a[0]), as_seq(I, st, a[1])))


@adapter("chain")
def m_chain(I, st, s, a, f):
    return tidy(Seq(s.segs + as_seq(I, st, a[1]).segs))


@adapter("cycle")
def m_cycle(I, st, s, a, f):
    n = s.length()
    if n is INF or n.is_zero():
        return s
    if not T.nonneg(n - 1):
        require(I, st, T.ge0(n - 1), "empty cycle")
        n = T.renorm(n)
    if len(s.segs) == 1 and s.segs[0].v is None:
        return Seq([Seg(INF, None, s.segs[0].t)])
    return V.gen(INF, lambda i: s.at(i - n * T.idiv(i, n)))


for _n in ("cloned", "copied", "fuse", "by_ref"):
    ident("std::iter::Iterator::" + _n)


@adapter("inspect")
def m_inspect(I, st, s, a, f):
    return s


@adapter("rev")
def m_rev(I, st, s, a, f):
    return rev_seq(s)


@adapter("skip")
def m_skip(I, st, s, a, f):
    return skip_seq(s, sc(I, st, a[1]))


@it("take")
def m_take(I, st, a, f):
    k = sc(I, st, a[1])
    v = a[0]
    if isinstance(v, Opaque):
        return v
    if isinstance(v, Ref):
        r = v
        t = I.read(st, r)
        while isinstance(t, Ref):
            r = t
            t = I.read(st, r)
        if not isinstance(t, Stream):
            t = stream(as_seq(I, st, t))
        n = V.seq_len(t.seq)
        left = INF if n is INF else n - t.pos
        if left is not INF:
            left = clamp0(left)
        m = imin(left, k)
        I.write(st, r.cell, r.path, Stream(t.seq, t.pos + k if left is INF else t.pos + m))
        return stream(V.gen(m, lambda i: V.seq_at(t.seq, t.pos + i)))
    return stream(take_seq(as_seq(I, st, v), k))


@adapter("step_by")
def m_step_by(I, st, s, a, f):
    return step_seq(s, sc(I, st, a[1]))


@adapter("flat_map")
def m_flat_map(I, st, s, a, f):
    return concat(I, lambda x: as_seq(I, st, x), map_seq(I, st, a[1], s))


@adapter("flatten")
def m_flatten(I, st, s, a, f):
    return concat(I, lambda x: as_seq(I, st, x), s)


@it("filter")
def m_filter(I, st, a, f):
    return filtered(I, st, a, lambda x: (I.boolean(apply_pure(I, st, a[1], [x])), x))


@it("filter_map")
def m_filter_map(I, st, a, f):
    def g(x):
        r = apply_pure(I, st, a[1], [x])
        if not isinstance(r, Enum):
            raise Undecided("filter_map result")
        if r.guard(1).is_zero():
            return ZERO, ZERO
        return r.guard(1), r.fields(1)[0]
    return filtered(I, st, a, g)


def filtered(I, st, a, test):
    """a filtered sequence; where the positions of the kept items have no closed form, the items with the
    condition under which each is kept (enough to add or count them)"""
    if isinstance(a[0], Opaque):
        return a[0]
    s = as_seq(I, st, a[0])
    try:
        return stream(filt(I, st, s, test))
    except Undecided as e:
        if str(e) != "filter condition":
            raise
    out = []
    for g in s.segs:
        w = T.fresh("i", lo=0, hi=None if g.len is INF else g.len - 1)
        c, y = test(g.at(w))
        out.append(V.mkseg(g.len, w, V.tup(T.renorm(c), y)))
    return Agg("Filtered", [Seq(out)])


def kept(v, f):
    """the sequence of f(condition, item) of a filtered sequence, or None"""
    if not (isinstance(v, Agg) and v.name == "Filtered"):
        return None
    out = []
    for g in v.kids()[0].segs:
        w = T.fresh("i", lo=0, hi=None if g.len is INF else g.len - 1)
        c, y = g.at(w).kids()
        out.append(V.mkseg(g.len, w, f(c, y)))
    return Seq(out)


@it("skip_while")
def m_skip_while(I, st, a, f):
    s = as_seq(I, st, a[0])
    l = s.lit() if isinstance(s, Seq) else None
    if l is None:
        raise Undecided("skip_while on a sequence of unknown length")
    out = []
    skip = ONE
    for x in l:
        if not skip.is_zero():
            skip = T.renorm(skip * I.boolean(apply_pure(I, st, a[1], [x])))
        if skip is not ONE:
            out.append(Seg(ONE - skip, None, x))
    return stream(Seq(out))


def filt(I, st, s, test):
    out = []
    for g in s.segs:
        w = T.fresh("i", lo=0, hi=None if g.len is INF else g.len - 1)
        c, y = test(g.at(w))
        c = T.renorm(c)
        if c is ONE:
            out.append(V.mkseg(g.len, w, y))
        elif c.is_zero():
            continue
        elif g.len is ONE:
            out.append(Seg(T.subst(c, {T.the_atom(w).id: ZERO}), None, T.vsubst(y, {T.the_atom(w).id: ZERO})))
        else:
            m, r = congruence(c, w)
            # indices w = r + m*j
            n = INF if g.len is INF else T.idiv(g.len - r + m - 1, m)
            j = T.fresh("i", lo=0, hi=None if n is INF else n - 1)
            out.append(V.mkseg(n, j, T.vsubst(y, {T.the_atom(w).id: m * j + r})))
    return Seq(out)


def congruence(c, w):
    """c == [w mod m == r] -> (m, r)"""
    l = T._lit(c)
    if l is None or l[1] != 1 or l[0].kind != "eq":
        raise Undecided("filter condition")
    p = l[0].args[0]
    wid = T.the_atom(w).id
    for a in p.atoms():
        A = T.ATOMS[a]
        if A.kind == "idiv" and A.args[0] is w and wid not in A.args[1].fv():
            m = A.args[1]
            for sgn in (1, -1):
                r = (w - m * T.apoly_raw(A)) - p.scale(sgn)
                if wid not in r.fv() and T.nonneg(r) and T.nonneg(m - 1 - r):
                    return m, r
    raise Undecided("filter condition")


@it("for_each")
def m_for_each(I, st, a, f):
    s = as_seq(I, st, a[0])
    cell = None
    fv = a[1]
    if is_stateful(I, fv):
        from .interp import new_id
        cell = (new_id("cl"), 0)
        st.store[cell] = fv
        fv = Ref(cell)
    run_effects(I, st, lambda s2, k: I.call_value(fv, [s.at(k)], s2), s.length())
    if cell:
        st.store.pop(cell, None)
    return V.UNIT


@it("fold")
def m_fold(I, st, a, f):
    s = as_seq(I, st, a[0])
    n = s.length()
    if n is INF:
        raise Undecided("fold of infinite sequence")
    from .interp import new_id
    acc = (new_id("acc"), 0)
    st.store[acc] = a[1]
    fv = a[2]
    fc = None
    if is_stateful(I, fv):
        fc = (new_id("cl"), 0)
        st.store[fc] = fv
        fv = Ref(fc)

    def step(s2, k):
        x = s2.store[acc]
        s2.store[acc] = I.call_value(fv, [x, s.at(k)], s2)
        return V.UNIT
    run_effects(I, st, step, n)
    st.store.pop(fc, None)
    return st.store.pop(acc)


@it("reduce")
def m_reduce(I, st, a, f):
    s = as_seq(I, st, a[0])
    n = s.length()
    if n is INF:
        raise Undecided("reduce of infinite sequence")
    c = T.ge0(n - 1)
    if c.is_zero():
        return V.NONE
    with T.assume(c):
        s2 = T.assume
        r = m_fold(I, st, [stream(skip_seq(s, ONE)), s.at(ZERO), a[1]], f)
    return V.opt(c, r)


@it("sum")
def m_sum(I, st, a, f):
    s = kept(a[0], vmul)
    if s is None:
        s = as_seq(I, st, a[0])
    r = sum_seq(s)
    if r is None:
        return ZERO
    ty = (f.get("args") or [None])[-1]
    if isinstance(ty, str) and ty in NARROW and isinstance(r, Poly):
        lo, hi = NARROW[ty]
        require(I, st, T.ge0(hi - r) * T.ge0(r - lo), "the sum overflows " + ty)
    return r


NARROW = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767),
          "u32": (0, 2 ** 32 - 1), "i32": (-2 ** 31, 2 ** 31 - 1)}


@it("product")
def m_product(I, st, a, f):
    s = as_seq(I, st, a[0]).lit()
    if s is None:
        raise Undecided("product")
    r = ONE
    for x in s:
        r = vmul(r, x)
    return r


@it("collect")
def m_collect(I, st, a, f):
    if isinstance(a[0], Opaque):
        return a[0]
    tgt = f.get("args", [None])[-1]
    if isinstance(tgt, dict) and "adt" in tgt:
        n = tgt["adt"]
        if not (n.endswith("::Vec") or n.endswith("::VecDeque") or n.endswith("::Box")):
            raise Undecided("collect into " + n)
    return as_vec(as_seq(I, st, a[0]))


def as_vec(s):
    if s.length() is INF:
        raise Undecided("collect of infinite sequence")
    return Seq(s.segs, "vec")


@model("std::iter::FromIterator::from_iter")
def m_from_iter(I, st, a, f):
    return as_vec(as_seq(I, st, a[0]))


MODELS["<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter"] = m_from_iter


@it("count")
def m_count(I, st, a, f):
    s = kept(a[0], lambda c, y: c)
    if s is not None:
        r = sum_seq(s)
        return ZERO if r is None else r
    n = as_seq(I, st, a[0]).length()
    if n is INF:
        raise Undecided("count of infinite sequence")
    return n


@it("last")
def m_last(I, st, a, f):
    s = as_seq(I, st, a[0])
    n = s.length()
    if n is INF:
        raise Undecided("last of infinite sequence")
    c = T.ge0(n - 1)
    if c.is_zero():
        return V.NONE
    with T.assume(c):
        x = s.at(n - 1)
    return V.opt(c, x)


def quant(I, st, a):
    s = as_seq(I, st, a[0]) if not isinstance(a[0], Ref) else as_seq(I, st, I.deref(st, a[0]))
    tot = ZERO
    neg = ZERO
    for g in s.segs:
        if g.len is INF:
            raise Undecided("quantifier over infinite sequence")
        w = T.fresh("i", lo=0, hi=g.len - 1)
        c = I.boolean(apply_pure(I, st, a[1], [g.at(w)]))
        tot = tot + T.msum(g.len, w, c)
        neg = neg + T.msum(g.len, w, ONE - c)
    return tot, neg


@it("any")
def m_any(I, st, a, f):
    tot, _ = quant(I, st, a)
    return ONE - T.eqz(tot)


@it("all")
def m_all(I, st, a, f):
    _, neg = quant(I, st, a)
    return T.eqz(neg)


def extremum(name):
    def m(I, st, a, f):
        s = as_seq(I, st, a[0])
        n = s.length()
        if n is INF:
            raise Undecided("extremum of infinite sequence")
        flip = False
        if name.endswith("_by"):
            x, y = T.var("%cmpx", isint=False, nonneg=False), T.var("%cmpy", isint=False, nonneg=False)
            r = apply_pure(I, st, a[1], [x, y])
            if not isinstance(r, Enum) or not r.adt.endswith("Ordering"):
                raise Undecided("comparator")
            if r.guard(1) is T.pos(x - y):
                flip = False
            elif r.guard(1) is T.pos(y - x):
                flip = True
            else:
                raise Undecided("comparator")
        elif name.endswith("_key"):
            raise Undecided("key extremum")
        mx = name.startswith("max") != flip
        l = s.lit()
        c = T.ge0(n - 1)
        if c.is_zero():
            return V.NONE
        return V.opt(c, T.app("seqmax" if mx else "seqmin", Seq(s.segs, "vec")))
    return m


for _n in ("max_by", "min_by", "max", "min"):
    MODELS["std::iter::Iterator::" + _n] = extremum(_n)


@it("scan")
def m_scan(I, st, a, f):
    from .interp import new_id
    s = as_seq(I, st, a[0])
    v = V.tup(stream(s), a[1], a[2])

    def callnext(s2, ref):
        x = m_next(I, s2, [Ref(ref.cell, ref.path + (("f", 0),))], f)
        return opt_bind(I, s2, x, lambda s3, y: I.call_value(
            Ref(ref.cell, ref.path + (("f", 2),)), [Ref(ref.cell, ref.path + (("f", 1),)), y], s3))
    return stream(next_seq(I, st, v, callnext, "scan"))


def opt_bind(I, st, x, k):
    """match x { Some(y) => k(y), None => None } with gated effects"""
    from .interp import State, merge_states
    if isinstance(x, Opaque):
        raise Undecided(x.why)
    g = x.guard(1)
    if g.is_zero():
        return V.NONE
    y = x.fields(1)[0]
    if g is ONE:
        return k(st, y)
    s1 = State(dict(st.store), st.path + (g,))
    s2 = State(dict(st.store), st.path + (ONE - g,))
    with T.assume(*s1.path):
        r1 = k(s1, V.norm_val(y))
    if not isinstance(r1, Enum):
        raise Undecided("option result")
    cell = ("%bind", 0)
    s1.store[cell] = r1
    s2.store[cell] = V.NONE
    m = merge_states(s1, s2)
    st.store.clear()
    st.store.update(m.store)
    st.path = m.path
    return st.store.pop(cell)


def opt_branch(I, st, g, ka, kb):
    from .interp import State, merge_states
    if g is ONE:
        return ka(st)
    if g.is_zero():
        return kb(st)
    s1 = State(dict(st.store), st.path + (g,))
    s2 = State(dict(st.store), st.path + (ONE - g,))
    cell = ("%br", 0)
    with T.assume(*s1.path):
        s1.store[cell] = ka(s1)
    with T.assume(*s2.path):
        s2.store[cell] = kb(s2)
    m = merge_states(s1, s2)
    st.store.clear()
    st.store.update(m.store)
    st.path = m.path
    return st.store.pop(cell)


@it("map_while")
def m_map_while(I, st, a, f):
    v = V.tup(stream(as_seq(I, st, a[0])), a[1])

    def callnext(s2, ref):
        x = m_next(I, s2, [Ref(ref.cell, ref.path + (("f", 0),))], f)
        return opt_bind(I, s2, x, lambda s3, y: I.call_value(Ref(ref.cell, ref.path + (("f", 1),)), [y], s3))
    return stream(next_seq(I, st, v, callnext, "map_while"))


@it("take_while")
def m_take_while(I, st, a, f):
    v = V.tup(stream(as_seq(I, st, a[0])), a[1])

    def callnext(s2, ref):
        x = m_next(I, s2, [Ref(ref.cell, ref.path + (("f", 0),))], f)

        def k(s3, y):
            c = I.boolean(I.call_value(Ref(ref.cell, ref.path + (("f", 1),)), [y], s3))
            return V.opt(c, y)
        return opt_bind(I, s2, x, k)
    return stream(next_seq(I, st, v, callnext, "take_while"))


@model("std::array::<impl [T; N]>::map", "std::array::from_fn")
def m_array_map(I, st, a, f):
    from .interp import new_id
    if f["fn"] == "std::array::from_fn":
        n = next((x["const"] for x in f.get("args", ()) if isinstance(x, dict) and isinstance(x.get("const"), int)), None)
        l = None if n is None else [T.const(i) for i in range(n)]
        fv = a[0]
    else:
        l, fv = as_seq(I, st, a[0]).lit(), a[1]
    if l is None or len(l) > 64:
        raise Undecided("array of unknown length")
    cell = (new_id("cl"), 0)
    st.store[cell] = fv
    out = [I.call_value(Ref(cell), [x], st) for x in l]
    st.store.pop(cell, None)
    return V.lit(out)


@model("std::iter::from_fn")
def m_from_fn(I, st, a, f):
    v = V.tup(a[0])

    def callnext(s2, ref):
        return I.call_value(Ref(ref.cell, ref.path + (("f", 0),)), [], s2)
    return stream(next_seq(I, st, v, callnext, "from_fn"))


@model("std::iter::successors")
def m_successors(I, st, a, f):
    v = V.tup(a[0], a[1])

    def callnext(s2, ref):
        cur = I.read(s2, Ref(ref.cell, ref.path + (("f", 0),)))

        def k(s3, y):
            n = I.call_value(Ref(ref.cell, ref.path + (("f", 1),)), [y], s3)
            I.write(s3, ref.cell, ref.path + (("f", 0),), n)
            return V.some(y)
        return opt_bind(I, s2, cur, k)
    return stream(next_seq(I, st, v, callnext, "successors"))


@model("std::iter::repeat_with")
def m_repeat_with(I, st, a, f):
    v = V.tup(a[0])

    def callnext(s2, ref):
        return V.some(I.call_value(Ref(ref.cell, ref.path + (("f", 0),)), [], s2))
    return stream(next_seq(I, st, v, callnext, "repeat_with"))


@model("std::iter::once")
def m_once(I, st, a, f):
    return stream(V.lit([a[0]]))


@model("std::iter::empty")
def m_empty(I, st, a, f):
    return stream(Seq([]))


@model("std::iter::repeat")
def m_repeat(I, st, a, f):
    return stream(Seq([Seg(INF, None, a[0])]))


@model("std::iter::repeat_n", "itertools::repeat_n")
def m_repeat_n(I, st, a, f):
    return stream(Seq([Seg(sc(I, st, a[1]), None, a[0])]))


@it("unzip")
def m_unzip(I, st, a, f):
    s = as_seq(I, st, a[0])
    return V.tup(as_vec(Seq([remap(g, lambda t: t.fields[0]) for g in s.segs])),
                 as_vec(Seq([remap(g, lambda t: t.fields[1]) for g in s.segs])))


@it("position")
def m_position(I, st, a, f):
    raise Undecided("position")


@it("size_hint")
def m_size_hint(I, st, a, f):
    raise Undecided("size_hint")


@model("itertools::Itertools::tuples")
def m_tuples(I, st, a, f):
    s = as_seq(I, st, a[0])
    n = None
    for t in f.get("args", []):
        if isinstance(t, dict) and "tup" in t:
            n = len(t["tup"])
    if n is None:
        raise Undecided("tuple arity")
    L = s.length()
    cnt = INF if L is INF else T.idiv(L, T.const(n))
    if cnt is not INF and cnt.is_zero():
        return stream(V.lit([]))
    return stream(V.gen(cnt, lambda i: V.tup(*[s.at(i.scale(n) + j) for j in range(n)])))


@model("itertools::Itertools::tuple_windows")
def m_tuple_windows(I, st, a, f):
    raise Undecided("tuple_windows")


@model("std::iter::ExactSizeIterator::len")
def m_itlen(I, st, a, f):
    v = dr(I, st, a[0])
    return as_seq(I, st, v).length()


# ------------------------------------------------ sequences

ident("<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut",
      "<std::sync::Arc<T, A> as std::ops::Deref>::deref", "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut",
      "std::convert::Into::into", "std::convert::AsRef::as_ref", "std::borrow::ToOwned::to_owned",
      "std::slice::<impl [T]>::into_vec", "std::vec::Vec::<T, A>::into_boxed_slice", "std::hint::black_box",
      "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice", "std::boxed::Box::<T>::new",
      "std::rc::Rc::<T>::new", "std::sync::Arc::<T>::new", "std::convert::identity", "std::mem::drop",
      "std::boxed::box_new", "std::boxed::box_assume_init_into_vec_unsafe", "std::vec::Vec::<T, A>::shrink_to_fit", "core::slice::<impl [T]>::as_ref")


@model("std::slice::<impl [T]>::to_vec", "<std::vec::Vec<T> as std::convert::From<&[T]>>::from",
       "std::vec::Vec::<T, A>::drain_all", "<std::vec::Vec<T> as std::convert::From<[T; N]>>::from",
       "<std::vec::Vec<T, A> as std::clone::Clone>::clone", "std::slice::<impl [T]>::to_owned",
       "<std::vec::Vec<T> as std::convert::From<&mut [T]>>::from")
def m_to_vec(I, st, a, f):
    v = dr(I, st, a[0])
    if isinstance(v, Seq):
        return Seq(v.segs, "vec")
    return v


@model("std::clone::Clone::clone")
def m_clone(I, st, a, f):
    v = dr(I, st, a[0])
    return entropy(I, st) if is_entropy(v) else v


@model("core::slice::<impl [T]>::len", "std::vec::Vec::<T, A>::len", "std::collections::VecDeque::<T, A>::len")
def m_len(I, st, a, f):
    v = dr(I, st, a[0])
    if isinstance(v, Opaque):
        return T.opaque(v.why)
    if isinstance(v, Sym) and v.name == "rsbuf":
        return v.args[0].length()
    n = V.seq_len(v)
    if n is INF:
        raise Undecided("length")
    return n


@model("core::slice::<impl [T]>::is_empty", "std::vec::Vec::<T, A>::is_empty",
       "std::collections::VecDeque::<T, A>::is_empty")
def m_is_empty(I, st, a, f):
    n = m_len(I, st, a, f)
    return T.ge0(-n) if T.nonneg(n) else T.eqz(n)


@model("core::slice::<impl [T]>::get", "std::collections::VecDeque::<T, A>::get")
def m_get(I, st, a, f):
    v = dr(I, st, a[0])
    ix = a[1]
    if isinstance(ix, Poly):
        c = in_bounds(V.seq_len(v), ix)
        if c.is_zero():
            return V.NONE
        with T.assume(c):
            x = V.seq_at(v, ix)
        return V.opt(c, x)
    n = V.seq_len(v)
    lo, ln, c = range_of(I, ix, n)
    if c.is_zero():
        return V.NONE
    from .interp import sub_seq
    return V.opt(c, sub_seq(v, lo, ln))


def in_bounds(n, i):
    c = ONE if T.nonneg(i) else T.ge0(i)
    if n is INF:
        return c
    return c * T.ge0(n - 1 - i)


@model("core::slice::<impl [T]>::first")
def m_first(I, st, a, f):
    return m_get(I, st, [a[0], ZERO], f)


@model("core::slice::<impl [T]>::last")
def m_slast(I, st, a, f):
    v = dr(I, st, a[0])
    return m_get(I, st, [v, V.seq_len(v) - 1], f)


@model("std::collections::VecDeque::<T, A>::front")
def m_front(I, st, a, f):
    return m_get(I, st, [a[0], ZERO], f)


@model("std::collections::VecDeque::<T, A>::back")
def m_back(I, st, a, f):
    return m_slast(I, st, a, f)


def range_of(I, r, n):
    """(lo, len, ok) of an index range over a sequence of length n"""
    if not isinstance(r, Agg):
        raise Undecided("index")
    nm = r.name
    fs = [I.scalar(x) for x in r.fields if isinstance(x, Poly)]
    if nm == RANGE:
        lo, hi = fs
    elif nm == "std::ops::RangeFrom":
        lo, hi = fs[0], n
    elif nm == "std::ops::RangeTo":
        lo, hi = ZERO, fs[0]
    elif nm == "std::ops::RangeFull":
        lo, hi = ZERO, n
    elif nm == "std::ops::RangeInclusive":
        lo, hi = fs[0], fs[1] + 1
    elif nm == "std::ops::RangeToInclusive":
        lo, hi = ZERO, fs[0] + 1
    else:
        raise Undecided("index by " + nm)
    if hi is INF:
        return lo, INF, ONE
    c = T.ge0(hi - lo)
    if n is not INF and hi is not n:
        c = c * T.ge0(n - hi)
    return lo, hi - lo, c


def index_step(I, st, v, ix, what):
    if isinstance(ix, Ref):
        ix = I.deref(st, ix)
    n = V.seq_len(v)
    if isinstance(ix, Poly):
        ix = T.renorm(ix)
        require(I, st, in_bounds(n, ix), "index out of bounds in " + what)
        return ("ix", ix)
    lo, ln, c = range_of(I, ix, n)
    require(I, st, c, "slice out of range in " + what)
    return ("sub", lo, ln)


@model("std::ops::Index::index", "<std::vec::Vec<T, A> as std::ops::Index<I>>::index",
       "core::slice::index::<impl std::ops::Index<I> for [T]>::index",
       "<std::collections::VecDeque<T, A> as std::ops::Index<usize>>::index",
       "core::array::<impl std::ops::Index<I> for [T; N]>::index")
def m_index(I, st, a, f):
    from .interp import get1
    v = dr(I, st, a[0])
    if isinstance(v, Opaque):
        return v
    if isinstance(v, Sym) and v.name == "rsbuf":
        v = v.args[0]
    if isinstance(v, Agg) and v.name == "NdArray":
        return nd_index(I, st, v, a[1])
    s = index_step(I, st, v, a[1], I.where())
    with T.assume(*st.path):
        return get1(v, s)


@model("std::ops::IndexMut::index_mut", "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut",
       "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut",
       "<std::collections::VecDeque<T, A> as std::ops::IndexMut<usize>>::index_mut",
       "core::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut")
def m_index_mut(I, st, a, f):
    r = a[0]
    while isinstance(I.read(st, r), Ref):
        r = I.read(st, r)
    v = I.read(st, r)
    if isinstance(v, Opaque):
        raise Undecided(v.why)
    s = index_step(I, st, v, a[1], I.where())
    return Ref(r.cell, r.path + (s,))


@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::collections::VecDeque::<T>::new",
       "std::collections::VecDeque::<T>::with_capacity", "std::vec::Vec::<T, A>::with_capacity_in",
       "std::string::String::new")
def m_vec_new(I, st, a, f):
    return Seq([])


for _n in ("reserve", "reserve_exact"):
    MODELS["std::vec::Vec::<T, A>::" + _n] = lambda I, st, a, f: V.UNIT
    MODELS["std::collections::VecDeque::<T, A>::" + _n] = lambda I, st, a, f: V.UNIT


@model("std::vec::from_elem")
def m_from_elem(I, st, a, f):
    n = sc(I, st, a[1])
    if not T.nonneg(n):
        n = clamp0(n)
    return Seq([Seg(n, None, a[0])])


def mut_seq(I, st, r):
    while isinstance(I.read(st, r), Ref):
        r = I.read(st, r)
    return r, I.read(st, r)


def seq_push(v, x):
    if isinstance(v, Seq):
        return Seq(v.segs + (Seg(ONE, None, x),), v.kind)
    if isinstance(v, Opaque):
        return v
    return OpSeq("push", v, x)


@model("std::vec::Vec::<T, A>::push", "std::collections::VecDeque::<T, A>::push_back", "std::string::String::push")
def m_push(I, st, a, f):
    r, v = mut_seq(I, st, a[0])
    I.write(st, r.cell, r.path, seq_push(v, a[1]))
    return V.UNIT


@model("std::collections::VecDeque::<T, A>::push_front")
def m_push_front(I, st, a, f):
    r, v = mut_seq(I, st, a[0])
    if isinstance(v, Seq):
        v = Seq((Seg(ONE, None, a[1]),) + v.segs, v.kind)
    elif not isinstance(v, Opaque):
        v = OpSeq("pushf", v, a[1])
    I.write(st, r.cell, r.path, v)
    return V.UNIT


def m_pop(front):
    def m(I, st, a, f):
        r, v = mut_seq(I, st, a[0])
        n = V.seq_len(v)
        if n is INF:
            raise Undecided("pop")
        c = T.ge0(n - 1)
        if c.is_zero():
            return V.NONE
        with T.assume(c):
            x = V.seq_at(v, ZERO if front else n - 1)
            if isinstance(v, Seq):
                w = skip_seq(v, ONE) if front else take_seq(v, n - 1)
            else:
                w = OpSeq("popf" if front else "popb", v)
        if c is not ONE:
            if isinstance(v, Seq):
                w = V.merge(c, w, v)
            else:
                w = OpSeq("popf" if front else "popb", v, c)
        I.write(st, r.cell, r.path, w)
        return V.opt(c, x)
    return m


MODELS["std::vec::Vec::<T, A>::pop"] = m_pop(False)
MODELS["std::collections::VecDeque::<T, A>::pop_back"] = m_pop(False)
MODELS["std::collections::VecDeque::<T, A>::pop_front"] = m_pop(True)


@model("std::vec::Vec::<T, A>::clear", "std::collections::VecDeque::<T, A>::clear")
def m_clear(I, st, a, f):
    r, v = mut_seq(I, st, a[0])
    I.write(st, r.cell, r.path, Seq([]))
    return V.UNIT


@model("std::vec::Vec::<T, A>::truncate", "std::collections::VecDeque::<T, A>::truncate")
def m_truncate(I, st, a, f):
    r, v = mut_seq(I, st, a[0])
    k = sc(I, st, a[1])
    n = V.seq_len(v)
    if isinstance(v, Seq):
        w = take_seq(v, k)
    elif T.nonneg(k - n):
        w = v
    elif T.nonneg(k - n + 1):
        c = T.ge0(n - k - 1)
        w = OpSeq("popb", v, c)
    else:
        raise Undecided("truncate")
    I.write(st, r.cell, r.path, w)
    return V.UNIT


@model("std::vec::Vec::<T, A>::resize")
def m_resize(I, st, a, f):
    r, v = mut_seq(I, st, a[0])
    k = sc(I, st, a[1])
    if not isinstance(v, Seq):
        raise Undecided("resize")
    n = v.length()
    if T.nonneg(k - n):
        w = Seq(v.segs + (Seg(k - n, None, a[2]),))
    elif T.nonneg(n - k):
        w = take_seq(v, k)
    else:
        c = T.ge0(k - n)
        with T.assume(c):
            x = Seq(v.segs + (Seg(k - n, None, a[2]),))
        with T.assume(ONE - c):
            y = take_seq(v, k)
        w = V.merge(c, x, y)
    I.write(st, r.cell, r.path, w)
    return V.UNIT


@model("std::vec::Vec::<T, A>::extend_from_slice", "std::iter::Extend::extend", "std::vec::Vec::<T, A>::append",
       "<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend",
       "<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend",
       "<std::collections::VecDeque<T, A> as std::iter::Extend<T>>::extend")
def m_extend(I, st, a, f):
    r, v = mut_seq(I, st, a[0])
    x = a[1]
    if isinstance(x, Ref):
        x = I.deref(st, x)
    s = as_seq(I, st, x)
    if isinstance(v, Seq):
        w = tidy(Seq(v.segs + s.segs, v.kind))
    elif isinstance(v, Opaque):
        w = v
    else:
        l = s.lit()
        if l is not None:
            w = v
            for e in l:
                w = OpSeq("push", w, e)
        else:
            w = OpSeq("ext", v, s)
    I.write(st, r.cell, r.path, w)
    return V.UNIT


@model("core::slice::<impl [T]>::chunks")
def m_chunks(I, st, a, f):
    v = as_seq(I, st, dr(I, st, a[0]))
    return stream(chunk_seq(v, sc(I, st, a[1]), True))


@model("core::slice::<impl [T]>::chunks_exact")
def m_chunks_exact(I, st, a, f):
    v = as_seq(I, st, dr(I, st, a[0]))
    return stream(chunk_seq(v, sc(I, st, a[1]), False))


def chunk_seq(v, k, ragged):
    from .interp import sub_seq
    n = v.length()
    q = T.idiv(n, k)
    segs = []
    if not T.renorm(q).is_zero():
        w = T.fresh("i", lo=0, hi=q - 1)
        segs.append(V.mkseg(q, w, V.gen(k, lambda j: v.at(w * k + j))))
    r = T.renorm(n - q * k)
    if ragged and not r.is_zero():
        c = T.ge0(r - 1)
        segs.append(Seg(c, None, V.gen(r, lambda j: v.at(q * k + j))))
    return Seq(segs)


@model("core::slice::<impl [T]>::windows")
def m_windows(I, st, a, f):
    v = as_seq(I, st, dr(I, st, a[0]))
    k = sc(I, st, a[1])
    n = v.length()
    cnt = clamp0(n - k + 1)
    return stream(V.gen(cnt, lambda i: V.gen(k, lambda j: v.at(i + j))))


@model("core::slice::<impl [T]>::reverse")
def m_reverse(I, st, a, f):
    r, v = mut_seq(I, st, a[0])
    I.write(st, r.cell, r.path, rev_seq(as_seq(I, st, v)))
    return V.UNIT


@model("core::slice::<impl [T]>::rotate_left", "core::slice::<impl [T]>::rotate_right")
def m_rotate(I, st, a, f):
    r, v = mut_seq(I, st, a[0])
    k = sc(I, st, a[1])
    s = as_seq(I, st, v)
    n = s.length()
    if f["fn"].endswith("right"):
        k = n - k
    require(I, st, T.ge0(n - k) * T.ge0(k), "rotation beyond length")
    I.write(st, r.cell, r.path, Seq(skip_seq(s, k).segs + take_seq(s, k).segs, s.kind))
    return V.UNIT


@model("core::slice::<impl [T]>::fill")
def m_fill(I, st, a, f):
    r, v = mut_seq(I, st, a[0])
    I.write(st, r.cell, r.path, Seq([Seg(V.seq_len(v), None, a[1])], getattr(v, "kind", "vec")))
    return V.UNIT


@model("core::slice::<impl [T]>::swap")
def m_swap(I, st, a, f):
    from .interp import seq_set
    r, v = mut_seq(I, st, a[0])
    i, j = sc(I, st, a[1]), sc(I, st, a[2])
    x, y = V.seq_at(v, i), V.seq_at(v, j)
    I.write(st, r.cell, r.path, seq_set(seq_set(v, i, y), j, x))
    return V.UNIT


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def m_copy_from(I, st, a, f):
    r, v = mut_seq(I, st, a[0])
    s = dr(I, st, a[1])
    require(I, st, T.eqz(V.seq_len(v) - V.seq_len(s)), "copy_from_slice length mismatch")
    I.write(st, r.cell, r.path, s)
    return V.UNIT


@model("core::slice::<impl [T]>::split_at")
def m_split_at(I, st, a, f):
    s = as_seq(I, st, dr(I, st, a[0]))
    k = sc(I, st, a[1])
    require(I, st, T.ge0(s.length() - k), "split beyond length")
    return V.tup(take_seq(s, k), skip_seq(s, k))


@model("std::slice::<impl [T]>::concat", "std::slice::<impl [T]>::repeat")
def m_concat(I, st, a, f):
    s = as_seq(I, st, dr(I, st, a[0]))
    if f["fn"].endswith("repeat"):
        k = sc(I, st, a[1])
        n = s.length()
        return V.gen(n * k, lambda i: s.at(i - n * T.idiv(i, n)))
    return as_vec(concat(I, lambda x: as_seq(I, st, x), s))


@model("std::vec::Vec::<T, A>::drain")
def m_drain(I, st, a, f):
    r, v = mut_seq(I, st, a[0])
    s = as_seq(I, st, v)
    lo, ln, c = range_of(I, a[1], s.length())
    require(I, st, c, "drain out of range")
    from .interp import sub_seq
    I.write(st, r.cell, r.path, Seq(take_seq(s, lo).segs + skip_seq(s, lo + ln).segs))
    return stream(sub_seq(s, lo, ln))


@model("std::string::String::push_str")
def m_push_str(I, st, a, f):
    r, v = mut_seq(I, st, a[0])
    I.write(st, r.cell, r.path, seq_push(v, a[1]) if V.is_seq(v) else Opaque("string"))
    return V.UNIT


# ------------------------------------------------ options, results

def opt_unwrap(I, st, v, what):
    if isinstance(v, Opaque):
        return v
    i = 1 if v.adt == V.OPT else 0
    g = v.guard(i)
    require(I, st, g, what)
    return v.fields(i)[0]


@model("std::option::Option::<T>::unwrap", "std::result::Result::<T, E>::unwrap", "std::option::Option::<T>::expect",
       "std::result::Result::<T, E>::expect")
def m_unwrap(I, st, a, f):
    return opt_unwrap(I, st, a[0], "unwrap of " + f["fn"].split("::")[2])


@model("std::option::Option::<T>::unwrap_or", "std::result::Result::<T, E>::unwrap_or")
def m_unwrap_or(I, st, a, f):
    v = a[0]
    i = 1 if v.adt == V.OPT else 0
    g = v.guard(i)
    if g.is_zero():
        return a[1]
    return V.merge(g, v.fields(i)[0], a[1])


@model("std::option::Option::<T>::unwrap_or_else", "std::result::Result::<T, E>::unwrap_or_else")
def m_unwrap_or_else(I, st, a, f):
    v = a[0]
    i = 1 if v.adt == V.OPT else 0
    return opt_branch(I, st, v.guard(i), lambda s: v.fields(i)[0],
                      lambda s: I.call_value(a[1], [] if i == 1 else list(v.fields(1)), s))


@model("std::option::Option::<T>::unwrap_or_default")
def m_unwrap_or_default(I, st, a, f):
    v = a[0]
    g = v.guard(1)
    d = default_of(I, f["args"][0], st)
    return d if g.is_zero() else V.merge(g, v.fields(1)[0], d)


@model("std::option::Option::<T>::is_none")
def m_is_none(I, st, a, f):
    v = dr(I, st, a[0])
    if isinstance(v, Opaque):
        return T.opaque(v.why)
    return v.guard(0)


@model("std::option::Option::<T>::is_some")
def m_is_some(I, st, a, f):
    v = dr(I, st, a[0])
    if isinstance(v, Opaque):
        return T.opaque(v.why)
    return v.guard(1)


@model("std::result::Result::<T, E>::is_ok")
def m_is_ok(I, st, a, f):
    return dr(I, st, a[0]).guard(0)


@model("std::result::Result::<T, E>::is_err")
def m_is_err(I, st, a, f):
    return dr(I, st, a[0]).guard(1)


@model("std::option::Option::<T>::map", "std::result::Result::<T, E>::map")
def m_opt_map(I, st, a, f):
    v = a[0]
    if isinstance(v, Opaque):
        return v
    if v.adt == V.RES:
        return opt_branch(I, st, v.guard(0),
                          lambda s: Enum(V.RES, [(0, ONE, (I.call_value(a[1], [v.fields(0)[0]], s),))]),
                          lambda s: Enum(V.RES, [(1, ONE, v.fields(1))]))
    return opt_bind(I, st, v, lambda s, y: V.some(I.call_value(a[1], [y], s)))


@model("std::option::Option::<T>::and_then")
def m_and_then(I, st, a, f):
    return opt_bind(I, st, a[0], lambda s, y: I.call_value(a[1], [y], s))


@model("std::option::Option::<T>::map_or", "std::option::Option::<T>::map_or_else")
def m_map_or(I, st, a, f):
    v = a[0]
    if f["fn"].endswith("else"):
        return opt_branch(I, st, v.guard(1), lambda s: I.call_value(a[2], [v.fields(1)[0]], s),
                          lambda s: I.call_value(a[1], [], s))
    return opt_branch(I, st, v.guard(1), lambda s: I.call_value(a[2], [v.fields(1)[0]], s), lambda s: a[1])


@model("std::option::Option::<T>::filter")
def m_opt_filter(I, st, a, f):
    v = a[0]

    def k(s, y):
        return V.opt(I.boolean(I.call_value(a[1], [y], s)), y)
    return opt_bind(I, st, v, k)


@model("std::option::Option::<T>::or", "std::option::Option::<T>::or_else")
def m_opt_or(I, st, a, f):
    v = a[0]
    if f["fn"].endswith("else"):
        return opt_branch(I, st, v.guard(1), lambda s: V.some(v.fields(1)[0]), lambda s: I.call_value(a[1], [], s))
    return opt_branch(I, st, v.guard(1), lambda s: V.some(v.fields(1)[0]), lambda s: a[1])


@model("std::option::Option::<T>::ok_or", "std::option::Option::<T>::ok_or_else")
def m_ok_or(I, st, a, f):
    v = a[0]
    e = a[1] if not f["fn"].endswith("else") else Opaque("error value")
    vs = []
    if not v.guard(1).is_zero():
        vs.append((0, v.guard(1), v.fields(1)))
    vs.append((1, v.guard(0), (e,)))
    return Enum(V.RES, vs)


@model("std::result::Result::<T, E>::ok")
def m_ok(I, st, a, f):
    v = a[0]
    if v.guard(0).is_zero():
        return V.NONE
    return V.opt(v.guard(0), v.fields(0)[0])


@model("std::option::Option::<T>::as_ref", "std::option::Option::<&T>::copied", "std::option::Option::<&T>::cloned",
       "std::option::Option::<&mut T>::copied", "std::option::Option::<&mut T>::cloned",
       "<std::option::Option<T> as std::clone::Clone>::clone")
def m_opt_id(I, st, a, f):
    v = dr(I, st, a[0])
    if isinstance(v, Enum) and v.adt == V.OPT and v.fields(1) is not None and isinstance(v.fields(1)[0], Ref):
        return V.opt(v.guard(1), I.deref(st, v.fields(1)[0]))
    return v


@model("std::option::Option::<T>::as_mut")
def m_as_mut(I, st, a, f):
    r = a[0]
    while isinstance(I.read(st, r), Ref):
        r = I.read(st, r)
    v = I.read(st, r)
    if v.guard(1).is_zero():
        return V.NONE
    return V.opt(v.guard(1), Ref(r.cell, r.path + (("vf", 1, 0),)))


@model("std::option::Option::<T>::take", "std::mem::take")
def m_opt_take(I, st, a, f):
    r = a[0]
    while isinstance(I.read(st, r), Ref):
        r = I.read(st, r)
    v = I.read(st, r)
    if isinstance(v, Enum) and v.adt == V.OPT:
        d = V.NONE
    else:
        d = default_of(I, f["args"][0], st)
    I.write(st, r.cell, r.path, d)
    return v


@model("std::option::Option::<T>::replace", "std::mem::replace")
def m_replace(I, st, a, f):
    r = a[0]
    while isinstance(I.read(st, r), Ref):
        r = I.read(st, r)
    v = I.read(st, r)
    I.write(st, r.cell, r.path, V.some(a[1]) if f["fn"].startswith("std::option") else a[1])
    return v


@model("std::option::Option::<T>::insert")
def m_opt_insert(I, st, a, f):
    r = a[0]
    while isinstance(I.read(st, r), Ref):
        r = I.read(st, r)
    I.write(st, r.cell, r.path, V.some(a[1]))
    return Ref(r.cell, r.path + (("vf", 1, 0),))


@model("std::mem::swap")
def m_mem_swap(I, st, a, f):
    x, y = I.read(st, a[0]), I.read(st, a[1])
    I.write(st, a[0].cell, a[0].path, y)
    I.write(st, a[1].cell, a[1].path, x)
    return V.UNIT


CF = "std::ops::ControlFlow"


@model("<std::option::Option<T> as std::ops::Try>::branch", "<std::result::Result<T, E> as std::ops::Try>::branch",
       "std::ops::Try::branch")
def m_branch(I, st, a, f):
    v = a[0]
    if isinstance(v, Opaque):
        raise Undecided(v.why)
    if v.adt == V.OPT:
        vs = []
        if not v.guard(1).is_zero():
            vs.append((0, v.guard(1), v.fields(1)))
        if not v.guard(0).is_zero():
            vs.append((1, v.guard(0), (V.NONE,)))
        return Enum(CF, vs)
    vs = []
    if not v.guard(0).is_zero():
        vs.append((0, v.guard(0), v.fields(0)))
    if not v.guard(1).is_zero():
        vs.append((1, v.guard(1), (Enum(V.RES, [(1, ONE, v.fields(1))]),)))
    return Enum(CF, vs)


@model("<std::option::Option<T> as std::ops::FromResidual<std::option::Option<!>>>::from_residual")
def m_from_residual(I, st, a, f):
    return V.NONE


@model("<std::result::Result<T, F> as std::ops::FromResidual<std::result::Result<!, E>>>::from_residual")
def m_from_residual_r(I, st, a, f):
    return a[0]


@model("core::bool::<impl bool>::then")
def m_then(I, st, a, f):
    c = sc(I, st, a[0])
    return opt_branch(I, st, c, lambda s: V.some(I.call_value(a[1], [], s)), lambda s: V.NONE)


@model("core::bool::<impl bool>::then_some")
def m_then_some(I, st, a, f):
    return V.opt(sc(I, st, a[0]), a[1])


# ------------------------------------------------ numbers

def fmodel(names, fn):
    def m(I, st, a, f):
        return fn(*[sc(I, st, x) for x in a])
    for n in names:
        for p in ("std::f64::<impl f64>::", "core::f64::<impl f64>::", "num_traits::Float::", "num::Float::",
                  "core::num::<impl f64>::"):
            MODELS[p + n] = m


fmodel(["cos"], T.cos)
fmodel(["sin"], T.sin)
fmodel(["sqrt"], T.sqrt)
fmodel(["exp"], T.expf)
fmodel(["ln"], T.ln)
fmodel(["log10"], T.log10)
fmodel(["powf"], T.powf)
fmodel(["abs"], T.absv)
fmodel(["recip"], lambda x: vdiv(ONE, x))
fmodel(["trunc"], lambda x: T.trunc(x) if T.nonneg(x) else T.app("ftrunc", x))
fmodel(["floor"], T.floor_)
fmodel(["exp2"], lambda x: T.powf(T.const(2), x))
fmodel(["log2"], lambda x: vdiv(T.ln(x), T.ln(T.const(2))))
fmodel(["mul_add"], lambda x, y, z: x * y + z)
fmodel(["tan"], lambda x: vdiv(T.sin(x), T.cos(x)))
fmodel(["is_sign_positive"], lambda x: ONE - T.pos(-x))
fmodel(["is_sign_negative"], lambda x: T.pos(-x))
fmodel(["signum"], lambda x: ONE - T.pos(-x).scale(2))
fmodel(["max"], lambda x, y: T.ite(T.pos(x - y), x, y))
fmodel(["min"], lambda x, y: T.ite(T.pos(y - x), x, y))
fmodel(["hypot"], lambda x, y: T.sqrt(x * x + y * y))
fmodel(["to_radians"], lambda x: x * T.PI.scale(Fraction(1, 180)))
fmodel(["copysign"], lambda x, y: T.absv(x) * (ONE - T.pos(-y).scale(2)))
fmodel(["is_nan"], lambda x: ZERO)
fmodel(["is_finite"], lambda x: ONE)
fmodel(["is_infinite"], lambda x: ZERO)
fmodel(["clamp"], lambda x, lo, hi: T.ite(T.pos(lo - x), lo, T.ite(T.pos(x - hi), hi, x)))
fmodel(["fract"], lambda x: x - T.trunc(x) if T.nonneg(x) else T.app("fract", x))

def round_(x):
    """to the nearest integer, halves away from zero"""
    if x.is_const():
        v = x.cval()
        return T.const((abs(v) + Fraction(1, 2)).__floor__() * (1 if v >= 0 else -1))
    if T.is_int(x):
        return x
    if T.nonneg(x):
        return T.floor_(x + Fraction(1, 2))
    return T.app("round", x)


T.APP_HOOK["round"] = lambda x: round_(x) if x.is_const() else None
fmodel(["round", "ceil", "atan", "acos", "asin", "tanh", "sinh", "cosh", "cbrt"], lambda x: None)
for _n in ("round", "ceil", "atan", "acos", "asin", "tanh", "sinh", "cosh", "cbrt"):
    def _mk(n):
        def fn(x):
            if n in ("round", "ceil") and T.is_int(x):
                return x
            if n == "ceil":
                return -T.floor_(-x)
            if n == "round":
                return round_(x)
            return T.app(n, x)
        return fn
    fmodel([_n], _mk(_n))


def _single():
    """single precision: the same functions, rounded"""
    for k in [k for k in MODELS if "<impl f64>::" in k]:
        def m(I, st, a, f, fn=MODELS[k]):
            r = fn(I, st, a, f)
            if isinstance(r, T.Poly):
                return r if T.is_boolp(r) else T.f32(r)
            if isinstance(r, Agg) and r.kids() and all(isinstance(x, T.Poly) for x in r.kids()):
                return V.tup(*[T.f32(x) for x in r.kids()])
            raise Undecided("single precision " + k)
        MODELS.setdefault(k.replace("f64", "f32"), m)


@model("std::f64::<impl f64>::sin_cos")
def m_sin_cos(I, st, a, f):
    x = sc(I, st, a[0])
    return V.tup(T.sin(x), T.cos(x))


@model("std::f64::<impl f64>::powi", "core::f64::<impl f64>::powi")
def m_powi(I, st, a, f):
    x = sc(I, st, a[0])
    n = cint(sc(I, st, a[1]))
    if n is None or abs(n) > 64:
        return T.app("powi", x, sc(I, st, a[1]))
    return T.ppow(x, n)


_single()


for _t in ("usize", "u8", "u16", "u32", "u64", "i32", "i64", "isize", "u128", "i128", "i8", "i16"):
    _p = "core::num::<impl %s>::" % _t
    _b = {"usize": 64, "isize": 64}.get(_t) or int(_t[1:])
    _s = _t[0] == "i"

    def _im(names, fn, p=_p):
        for n in names:
            MODELS[p + n] = lambda I, st, a, f, fn=fn: fn(*[sc(I, st, x) for x in a])
    _im(["div_ceil"], lambda x, y: ceil_div(x, y))
    _im(["div_euclid"], lambda x, y: T.idiv(x, y))
    _im(["rem_euclid"], lambda x, y: x - y * T.idiv(x, y))
    _im(["saturating_sub"], (lambda x, y: x - y) if _s else (lambda x, y: clamp0(x - y)))
    _im(["saturating_add", "wrapping_add"], (lambda x, y, b=_b, s=_s: T.wrap(x + y, b, s) if b < 64 else x + y))
    _im(["wrapping_mul"], (lambda x, y, b=_b, s=_s: T.wrap(x * y, b, s) if b < 64 else x * y))
    _im(["wrapping_sub"], (lambda x, y, b=_b, s=_s: T.wrap(x - y, b, s) if b < 64 else x - y))
    def _ispow2(x):
        c = Fraction(x.cval()) if isinstance(x, T.Poly) and x.is_const() else None
        if c is not None and c.denominator == 1:
            return T.ONE if c > 0 and int(c) & (int(c) - 1) == 0 else T.ZERO
        return T.app("is_pow2", x, isbool=True)
    _im(["abs_diff"], lambda x, y: T.absv(x - y))
    _im(["is_power_of_two"], _ispow2)
    _im(["count_ones"], lambda x: count_ones(x))

    def _ipow(x, n):
        c = cint(n)
        if c is not None and c <= 64:
            return T.ppow(x, c)
        return T.powf(x, n)
    _im(["pow"], _ipow)

    def _chk(op):
        def m(I, st, a, f):
            x, y = sc(I, st, a[0]), sc(I, st, a[1])
            if op == "sub":
                c = T.ge0(x - y)
                return V.opt(c, x - y) if not c.is_zero() else V.NONE
            if op == "div":
                c = ONE - T.eqz(y)
                if c.is_zero():
                    return V.NONE
                with T.assume(c):
                    q = T.idiv(x, y)
                return V.opt(c, q)
            return V.some(x + y if op == "add" else x * y)
        return m
    for _o in ("sub", "add", "mul", "div"):
        MODELS[_p + "checked_" + _o] = _chk(_o)


@model("std::cmp::min", "std::cmp::Ord::min")
def m_min(I, st, a, f):
    x, y = sc(I, st, a[0]), sc(I, st, a[1])
    return imin(x, y) if T.is_int(x) and T.is_int(y) else T.ite(T.pos(y - x), x, y)


@model("std::cmp::max", "std::cmp::Ord::max")
def m_max(I, st, a, f):
    x, y = sc(I, st, a[0]), sc(I, st, a[1])
    return x + y - imin(x, y)


@model("std::cmp::Ord::clamp")
def m_clamp(I, st, a, f):
    x, lo, hi = [sc(I, st, v) for v in a]
    m = lo + x - imin(lo, x)
    return imin(m, hi)


@model("std::cmp::PartialOrd::partial_cmp", "std::cmp::Ord::cmp", "core::f64::<impl f64>::total_cmp",
       "std::cmp::impls::<impl std::cmp::PartialOrd for f64>::partial_cmp")
def m_pcmp(I, st, a, f):
    x, y = sc(I, st, a[0]), sc(I, st, a[1])
    isf = not (T.is_int(x) and T.is_int(y))
    lt = T.pos(y - x) if isf else T.ge0(y - x - 1)
    gt = T.pos(x - y) if isf else T.ge0(x - y - 1)
    r = Enum("std::cmp::Ordering", [(255, lt, ()), (0, ONE - lt - gt, ()), (1, gt, ())])
    return V.some(r) if f["fn"].endswith("partial_cmp") else r


def cmpop(op):
    def m(I, st, a, f):
        x, y = sc(I, st, a[0]), sc(I, st, a[1])
        return I.arith(op, x, y, None)
    return m


for _n, _o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    MODELS["std::cmp::PartialOrd::" + _n] = cmpop(_o)


@model("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def m_eq(I, st, a, f):
    c = veq_bool(deep(I, st, a[0]), deep(I, st, a[1]))
    return c if f["fn"].endswith("eq") else ONE - c


def deep(I, st, v):
    return I.deref(st, v)


def binm(name, fn):
    def m(I, st, a, f):
        return fn(dr(I, st, a[0]), dr(I, st, a[1]))

    def ma(I, st, a, f):
        r = a[0]
        while isinstance(I.read(st, r), Ref):
            r = I.read(st, r)
        I.write(st, r.cell, r.path, fn(I.read(st, r), dr(I, st, a[1])))
        return V.UNIT
    MODELS["std::ops::%s::%s" % (name, name.lower())] = m
    MODELS["std::ops::%sAssign::%s_assign" % (name, name.lower())] = ma


def nd_wrap(fn):
    def g(x, y):
        if isinstance(x, Agg) and x.name == "NdArray" or isinstance(y, Agg) and y.name == "NdArray":
            return nd_zip(x, y, fn)
        return fn(x, y)
    return g


binm("Add", nd_wrap(lambda x, y: vadd(x, y)))
binm("Sub", nd_wrap(lambda x, y: vadd(x, y, -1)))
binm("Mul", nd_wrap(vmul))
binm("Div", nd_wrap(lambda x, y: T.idiv(x, y) if False else vdiv(x, y)))


@model("std::ops::Neg::neg")
def m_neg(I, st, a, f):
    return vneg(dr(I, st, a[0]))


@model("std::ops::Not::not")
def m_not(I, st, a, f):
    return ONE - sc(I, st, a[0])


@model("std::ops::Rem::rem")
def m_rem(I, st, a, f):
    x, y = sc(I, st, a[0]), sc(I, st, a[1])
    return x - y * T.idiv(x, y)


def bitm(name, op):
    def m(I, st, a, f):
        x, y = sc(I, st, a[0]), sc(I, st, a[1])
        ty = (f.get("args") or [None])[0] if isinstance(f, dict) else None
        while isinstance(ty, dict) and ty.get("ref") is not None:
            ty = ty["ref"]
        if ty != "bool":
            ty = "bool" if T.is_boolp(x) and T.is_boolp(y) else "u64"
        return I.arith(op, x, y, ty)

    def ma(I, st, a, f):
        r = a[0]
        while isinstance(I.read(st, r), Ref):
            r = I.read(st, r)
        I.write(st, r.cell, r.path, m(I, st, [I.read(st, r), a[1]], f))
        return V.UNIT
    MODELS["std::ops::%s::%s" % (name, name.lower())] = m
    MODELS["std::ops::%sAssign::%s_assign" % (name, name.lower())] = ma


bitm("BitXor", "BitXor")
bitm("BitAnd", "BitAnd")
bitm("BitOr", "BitOr")


@model("num::Zero::zero", "rustfft::num_traits::Zero::zero", "num_traits::Zero::zero",
       "ndrustfft::Zero::zero", "<num_complex::Complex<T> as num::Zero>::zero")
def m_zero(I, st, a, f):
    t = f.get("self") or (f.get("args") or [None])[0]
    if "Complex" in f.get("impl", "") or isinstance(t, dict) and str(t.get("adt", "")).endswith("Complex"):
        return V.cplx(ZERO, ZERO)
    return ZERO


@model("num::One::one", "num_traits::One::one")
def m_one(I, st, a, f):
    t = f.get("self") or (f.get("args") or [None])[0]
    if "Complex" in f.get("impl", "") or isinstance(t, dict) and str(t.get("adt", "")).endswith("Complex"):
        return V.cplx(ONE, ZERO)
    return ONE


@model("rand_distr::num_traits::Inv::inv", "num::traits::Inv::inv", "num_traits::Inv::inv",
       "<f64 as rand_distr::num_traits::Inv>::inv")
def m_inv(I, st, a, f):
    return vdiv(ONE, dr(I, st, a[0]))


def default_of(I, ty, st):
    if isinstance(ty, str):
        if ty in ("f64", "f32", "bool") or ty[0] in "iu":
            return ZERO
    if isinstance(ty, dict):
        if "param" in ty:
            return ZERO
        if "tup" in ty:
            return V.tup(*[default_of(I, t, st) for t in ty["tup"]])
        if "arr" in ty:
            n = ty["len"]
            if isinstance(n, int):
                d = default_of(I, ty["arr"], st)
                return V.gen(T.const(n), lambda i: d, "arr")
        if "adt" in ty:
            n = ty["adt"]
            if n.endswith("Complex"):
                return V.cplx(ZERO, ZERO)
            if n == V.OPT:
                return V.NONE
            if n.endswith("::Vec") or n.endswith("VecDeque") or n.endswith("String"):
                return Seq([])
            im = I.d.impl_of.get(("std::default::Default", n))
            if im is not None:
                k = dict(im["items"]).get("default")
                if k in I.d.bodies:
                    return I.run_body(I.d.bodies[k], [], st, {})
    raise Undecided("default value")


@model("std::default::Default::default")
def m_default(I, st, a, f):
    t = f.get("self") or (f.get("args") or [None])[0]
    return default_of(I, t, st)


@model("std::convert::From::from")
def m_from(I, st, a, f):
    v = dr(I, st, a[0])
    args = f.get("args") or [None]
    t = f.get("self") or args[0]
    if isinstance(t, dict) and str(t.get("adt", "")).endswith("Complex"):
        return v if is_cplx(v) else V.cplx(I.scalar(v), ZERO)
    if isinstance(t, dict) and str(t.get("adt", "")).endswith("::Vec") and V.is_seq(v):
        return m_to_vec(I, st, [v], f)
    if isinstance(t, dict) and "VecDeque" in str(t.get("adt", "")) and V.is_seq(v):
        return m_to_vec(I, st, [v], f)
    if isinstance(t, str) and isinstance(v, Poly):
        return v
    if isinstance(t, dict) and "ArrayBase" in str(t.get("adt", "")):
        return nd_from(I, v)
    raise Undecided("conversion")


@model("std::ops::RangeInclusive::<Idx>::new")
def m_ri_new(I, st, a, f):
    return Agg("std::ops::RangeInclusive", a)


@model("std::ops::RangeInclusive::<Idx>::contains", "std::ops::Range::<Idx>::contains")
def m_ri_contains(I, st, a, f):
    r = dr(I, st, a[0])
    x = sc(I, st, a[1])
    if isinstance(r, Opaque):
        return T.opaque(r.why)
    lo, hi = [I.scalar(v) for v in r.fields[:2]]
    up = I.arith("Le" if "Inclusive" in f["fn"] else "Lt", x, hi, None)
    return I.arith("Le", lo, x, None) * up


# ------------------------------------------------ complex numbers

def cmodel(name):
    return model("num_complex::Complex::<T>::" + name)


@cmodel("new")
def m_cnew(I, st, a, f):
    return V.cplx(sc(I, st, a[0]), sc(I, st, a[1]))


@cmodel("conj")
def m_conj(I, st, a, f):
    v = dr(I, st, a[0])
    return V.cplx(v.fields[0], -v.fields[1])


@cmodel("exp")
def m_cexp(I, st, a, f):
    v = dr(I, st, a[0])
    e = T.expf(v.fields[0])
    return V.cplx(e * T.cos(v.fields[1]), e * T.sin(v.fields[1]))


@cmodel("cis")
def m_cis(I, st, a, f):
    x = sc(I, st, a[0])
    return V.cplx(T.cos(x), T.sin(x))


@cmodel("from_polar")
def m_polar(I, st, a, f):
    r, x = sc(I, st, a[0]), sc(I, st, a[1])
    return V.cplx(r * T.cos(x), r * T.sin(x))


@cmodel("norm_sqr")
def m_norm_sqr(I, st, a, f):
    v = dr(I, st, a[0])
    return v.fields[0] * v.fields[0] + v.fields[1] * v.fields[1]


@cmodel("norm")
def m_norm(I, st, a, f):
    return T.sqrt(m_norm_sqr(I, st, a, f))


@cmodel("i")
def m_ci(I, st, a, f):
    return V.cplx(ZERO, ONE)


@cmodel("scale")
def m_cscale(I, st, a, f):
    return vmul(dr(I, st, a[0]), sc(I, st, a[1]))


@cmodel("unscale")
def m_cunscale(I, st, a, f):
    return vdiv(dr(I, st, a[0]), sc(I, st, a[1]))


# ------------------------------------------------ bits

def is_byte(A):
    b = T.BOUNDS.get(A.id)
    return A.isint and b is not None and b[1] is not None and b[1].is_const() and b[1].cval() == 255 \
        and A.kind in ("elem", "app", "var")


def bit(p, j):
    if p.is_const():
        return T.const((int(p.cval()) >> j) & 1)
    if T.is_boolp(p):
        return p if j == 0 else ZERO
    a = T.the_atom(p)
    if a is None and len(p.t) <= 24:
        bs = bits_of(p)
        if bs is not None:
            return bs.get(j, ZERO)
    return T.app("bit", p, T.const(j), isbool=True)


T.APP_HOOK["bit"] = lambda p, j: bit(p, int(j.cval())) if j.is_const() else None


def bits_of(p):
    """{j: boolean poly} with p = sum 2^j b_j, or None"""
    r = bits_of1(p)
    if r is not None:
        return r
    # a choice between two values with known bits
    sel = None
    for m in p.t:
        if len(m) == 2 and any(is_byte(T.ATOMS[x]) for x, _ in m):
            b = [x for x, _ in m if T.ATOMS[x].isbool]
            if b:
                sel = T.ATOMS[b[0]]
                break
    if sel is None:
        return None
    hi, lo = bits_of(T.setbool(p, sel, 1)), bits_of(T.setbool(p, sel, 0))
    if hi is None or lo is None:
        return None
    g = T.apoly_raw(sel)
    return {j: T.ite(g, hi.get(j, ZERO), lo.get(j, ZERO)) for j in sorted(set(hi) | set(lo))}


def bits_of1(p):
    if p.is_const():
        v = int(p.cval())
        if v < 0:
            return None
        return {j: ONE for j in range(v.bit_length()) if v >> j & 1}
    a = T.the_atom(p)
    if a is not None and is_byte(a):
        return {j: bit(p, j) for j in range(8)}
    if T.is_boolp(p):
        return {0: p}
    out = {}
    # group monomials by power-of-two coefficient
    whole = []
    rest = {}
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and is_byte(T.ATOMS[m[0][0]]):
            whole.append((T.ATOMS[m[0][0]], c))
        else:
            rest[m] = c
    for A, c in whole:
        if c.denominator != 1 or c <= 0 or int(c) & (int(c) - 1):
            return None
        s = int(c).bit_length() - 1
        for j in range(8):
            if j + s in out:
                return None
            out[j + s] = bit(T.apoly_raw(A), j)
    by = {}
    for m, c in rest.items():
        if any(not T.ATOMS[x].isbool for x, _ in m) or c.denominator != 1:
            return None
        v = abs(int(c))
        low = (v & -v).bit_length() - 1
        by.setdefault(low, {})[m] = c
    for j in sorted(by):
        q = T.mkpoly(by[j]).scale(Fraction(1, 1 << j))
        if not T.is_boolp(q):
            return None
        if j in out:
            return None
        out[j] = q
    return out


def from_bits(bs):
    r = ZERO
    for j, b in bs.items():
        r = r + b.scale(1 << j)
    return join_bits(r)


def join_bits(p):
    """sum_j 2^j bit(q, j) over all bits of byte q -> q"""
    for _ in range(8):
        hit = None
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1:
                A = T.ATOMS[m[0][0]]
                if A.kind == "app" and A.args[0] == "bit" and A.args[2].is_zero():
                    q = A.args[1]
                    full = ZERO
                    for j in range(8):
                        full = full + bit(q, j).scale(1 << j)
                    if all(p.t.get(mm) == cc * c for mm, cc in full.t.items()):
                        hit = p - full.scale(c) + q.scale(c)
                        break
        if hit is None:
            return p
        p = hit
    return p


def bitand(x, y):
    if x is y:
        return x
    for a, b in ((x, y), (y, x)):
        v = cint(b)
        if v is not None and v >= 0 and v & (v + 1) == 0 and bits_of(a) is None and not any(
                is_byte(T.ATOMS[q]) for q in a.atoms()):
            return a - (b + 1) * T.idiv(a, b + 1)
    bx, by = bits_of(x), bits_of(y)
    if bx is None or by is None:
        v = cint(y) if cint(y) is not None else cint(x)
        p = x if cint(y) is not None else y
        if v is not None and v >= 0:
            return from_bits({j: T.app("bit", p, T.const(j), isbool=True) for j in range(v.bit_length()) if v >> j & 1})
        return T.app("bitand", x, y, isint=True, nonneg=True)
    return from_bits({j: bx[j] * by[j] for j in bx if j in by})


def count_ones(x):
    bs = bits_of(x)
    if bs is None:
        return T.app("popcount", x, isint=True, nonneg=True)
    r = ZERO
    for b in bs.values():
        r = r + b
    return r


def idiv_hook(p, q):
    """division of bit patterns by a power of two"""
    c = cint(q)
    if c is None or c & (c - 1) or c <= 1 or c > 1 << 16:
        return None
    if not any(is_byte(T.ATOMS[a]) or (T.ATOMS[a].kind == "app" and T.ATOMS[a].args[0] == "bit") for a in p.atoms()):
        return None
    bs = bits_of(p)
    if bs is None:
        return None
    s = c.bit_length() - 1
    return from_bits({j - s: b for j, b in bs.items() if j >= s})


T.IDIV_HOOK[0] = idiv_hook
T.APP_HOOK["bitand"] = lambda x, y: bitand(x, y) if x.is_const() and y.is_const() else None
T.APP_HOOK["popcount"] = lambda x: count_ones(x) if x.is_const() else None


# ------------------------------------------------ FFT

@model("rustfft::FftPlanner::<T>::new", "realfft::RealFftPlanner::<T>::new")
def m_planner(I, st, a, f):
    return Sym("fftplanner", "real" if "Real" in f["fn"] else "complex")


def m_plan(d):
    def m(I, st, a, f):
        v = dr(I, st, a[0])
        return Sym("fft", d, "real" if f["fn"].startswith("realfft") else "complex", sc(I, st, a[1]))
    return m


for _n, _d in (("plan_fft_forward", "fwd"), ("plan_fft_inverse", "inv")):
    MODELS["rustfft::FftPlanner::<T>::" + _n] = m_plan(_d)
    MODELS["realfft::RealFftPlanner::<T>::" + _n] = m_plan(_d)


@model("rustfft::Fft::get_inplace_scratch_len", "rustfft::Fft::get_outofplace_scratch_len")
def m_scratch_len(I, st, a, f):
    p = dr(I, st, a[0])
    if not isinstance(p, Sym):
        raise Undecided("fft plan")
    return T.app("fft_scratch_len", p.args[2], isint=True, nonneg=True)


@model("rustfft::Length::len")
def m_fftlen(I, st, a, f):
    return dr(I, st, a[0]).args[2]


@model("rustfft::Fft::process_with_scratch", "rustfft::Fft::process")
def m_fft(I, st, a, f):
    p = dr(I, st, a[0])
    r, v = mut_seq(I, st, a[1])
    if not isinstance(p, Sym) or p.name != "fft":
        raise Undecided("fft plan")
    n = p.args[2]
    s = as_seq(I, st, v)
    require(I, st, T.eqz(s.length() - n), "FFT buffer length differs from the planned length")
    I.write(st, r.cell, r.path, dft(s, n, p.args[0]))
    return V.UNIT


def dft(s, n, d):
    w = T.fresh("f", lo=0, hi=n - 1)
    if len(s.segs) > 1 and n.is_const() and n.cval() <= 160:
        xs = [V.norm_val(s.at(T.const(i))) for i in range(int(n.cval()))]
        if not all(is_cplx(x) for x in xs):
            raise Undecided("fft input")
        if not any(T.ATOMS[k].kind == "app" and T.ATOMS[k].args[0] in ("dft_re", "dft_im") for x in xs for k in T.atoms_rec(x)):
            s = Seq(V.lit(xs).segs, "vec")
            return V.gen(n, lambda i: V.cplx(T.app("dft_re", Str(d), n, s, i), T.app("dft_im", Str(d), n, s, i)))
    x = s.at(w)
    if not is_cplx(x):
        raise Undecided("fft input")
    s = Seq([Seg(n, None, x) if T.the_atom(w).id not in T._arg_fv(x) else V.mkseg(n, w, x)], "vec") \
        if len(s.segs) != 1 else s
    u = undo_dft(x, w, n, d)
    if u is not None:
        c, src = u
        return V.gen(n, lambda i: vmul(src.at(i), c * n))
    s = Seq(s.segs, "vec")
    return V.gen(n, lambda i: V.cplx(T.app("dft_re", Str(d), n, s, i), T.app("dft_im", Str(d), n, s, i)))


def single(p):
    """p = c * atom, with everything else in c"""
    if len(p.t) != 1:
        return None
    (m, c), = p.t.items()
    for a, e in m:
        A = T.ATOMS[a]
        if A.kind == "app" and A.args[0] in ("dft_re", "dft_im") and e == 1:
            return A, T.mkpoly({tuple(x for x in m if x[0] != a): c})
    return None


def undo_dft(x, w, n, d):
    a, b = single(x.fields[0]), single(x.fields[1])
    if a is None or b is None:
        return None
    (A, ca), (B, cb) = a, b
    if ca is not cb or A.args[0] != "dft_re" or B.args[0] != "dft_im" or A.args[1:] != B.args[1:]:
        return None
    if A.args[1] == Str(d) or A.args[2] is not n or A.args[4] is not w or T.the_atom(w).id in T._arg_fv(A.args[3]):
        return None
    if T.the_atom(w).id in ca.fv():
        return None
    return ca, A.args[3]


@model("realfft::RealToComplex::make_output_vec")
def m_rfft_out(I, st, a, f):
    n = dr(I, st, a[0]).args[2]
    return Seq([Seg(T.idiv(n, T.const(2)) + 1, None, V.cplx(ZERO, ZERO))])


@model("realfft::ComplexToReal::make_output_vec")
def m_irfft_out(I, st, a, f):
    n = dr(I, st, a[0]).args[2]
    return Seq([Seg(n, None, ZERO)])


@model("realfft::RealToComplex::process")
def m_rfft(I, st, a, f):
    p = dr(I, st, a[0])
    n = p.args[2]
    r, v = mut_seq(I, st, a[1])
    o, _ = mut_seq(I, st, a[2])
    s = as_seq(I, st, v)
    require(I, st, T.eqz(s.length() - n), "real FFT input length differs from the planned length")
    s = Seq(s.segs, "vec")
    m = T.idiv(n, T.const(2)) + 1
    I.write(st, o.cell, o.path, V.gen(m, lambda i: V.cplx(T.app("rfft_re", n, s, i), T.app("rfft_im", n, s, i))))
    I.write(st, r.cell, r.path, Seq([Seg(s.length(), None, Opaque("fft scratch"))]))
    return Enum(V.RES, [(0, ONE, (V.UNIT,))])


@model("realfft::ComplexToReal::process")
def m_irfft(I, st, a, f):
    p = dr(I, st, a[0])
    n = p.args[2]
    r, v = mut_seq(I, st, a[1])
    o, _ = mut_seq(I, st, a[2])
    s = as_seq(I, st, v)
    s = Seq(s.segs, "vec")
    I.write(st, o.cell, o.path, V.gen(n, lambda i: T.app("irfft", n, s, i)))
    I.write(st, r.cell, r.path, Seq([Seg(s.length(), None, Opaque("fft scratch"))]))
    return Enum(V.RES, [(0, ONE, (V.UNIT,))])


# ------------------------------------------------ Reed-Solomon

@model("reed_solomon::Encoder::new")
def m_enc_new(I, st, a, f):
    return Sym("rsenc", sc(I, st, a[0]))


@model("reed_solomon::Decoder::new")
def m_dec_new(I, st, a, f):
    return Sym("rsdec", sc(I, st, a[0]))


def rs_ecc(ecc, data, j):
    p = T.app("rs_ecc", ecc, data, j, isint=True, nonneg=True)
    T.BOUNDS.setdefault(T.the_atom(p).id, (ZERO, T.const(255)))
    return p


def canon_seq(s):
    """one closed form per run, in canonical shape"""
    l = s.lit()
    if l is not None:
        return V.lit(l)
    return Seq(s.segs, "vec")


@model("reed_solomon::Encoder::encode")
def m_encode(I, st, a, f):
    e = dr(I, st, a[0]).args[0]
    s = canon_seq(as_seq(I, st, dr(I, st, a[1])))
    return Sym("rsbuf", Seq(s.segs + V.gen(e, lambda j: rs_ecc(e, s, j)).segs), s)


@model("<reed_solomon::Buffer as std::ops::Deref>::deref", "<reed_solomon::gf::poly::Polynom as std::ops::Deref>::deref")
def m_rs_deref(I, st, a, f):
    v = dr(I, st, a[0])
    return v.args[0] if isinstance(v, Sym) and v.name == "rsbuf" else v


@model("reed_solomon::Buffer::data")
def m_rs_data(I, st, a, f):
    return dr(I, st, a[0]).args[1]


def rs_fix(e, s, j):
    p = T.app("rs_fix", e, s, j, isint=True, nonneg=True)
    T.BOUNDS.setdefault(T.the_atom(p).id, (ZERO, T.const(255)))
    return p


@model("reed_solomon::Decoder::correct")
def m_rs_correct(I, st, a, f):
    e = dr(I, st, a[0]).args[0]
    s = canon_seq(as_seq(I, st, dr(I, st, a[1])))
    n = s.length()
    ce = cint(e)
    if ce is not None and T.nonneg(n - e):
        data = canon_seq(take_seq(s, n - e))
        try:
            if all(s.at(n - e + j) == rs_ecc(e, data, T.const(j)) for j in range(ce)):
                return Enum(V.RES, [(0, ONE, (Sym("rsbuf", s, data),))])
        except Undecided:
            pass
    g = T.app("rs_ok", e, s, isbool=True)

    def fix(j):
        return rs_fix(e, s, j)
    full = V.gen(n, fix)
    return Enum(V.RES, [(0, g, (Sym("rsbuf", full, V.gen(n - e, fix)),)), (1, ONE - g, (Opaque("decoder error"),))])


# ------------------------------------------------ randomness

@model("rand::SeedableRng::seed_from_u64")
def m_seed(I, st, a, f):
    t = f.get("self") or (f.get("args") or [None])[0]
    kind = t.get("adt") if isinstance(t, dict) else "rng"
    return Sym("rng", str(kind), sc(I, st, a[0]), ZERO)


@model("rand::thread_rng")
def m_thread_rng(I, st, a, f):
    return entropy(I, st)


def entropy(I, st):
    """a handle on the system's randomness: no two handles share draws. The store counts the handles, so that loops
    and closures asking for one per item are seen to"""
    I.effects.append("entropy")
    I.handles += 1
    k = st.store.get("entropy", ZERO)
    if not isinstance(k, Poly):
        raise Undecided("randomness")
    st.store["entropy"] = k + 1
    return Sym("rng", "entropy#" + I.where(), k, ZERO)


def is_entropy(v):
    return isinstance(v, Sym) and v.name == "rng" and str(v.args[0]).startswith("entropy#")


@model("<[T] as rand::prelude::SliceRandom>::shuffle", "rand::prelude::SliceRandom::shuffle")
def m_shuffle(I, st, a, f):
    r, v = mut_seq(I, st, a[0])
    g, rng = mut_seq(I, st, a[1])
    if not isinstance(rng, Sym) or rng.name != "rng":
        raise Undecided("shuffle by unknown generator")
    kind, seed, step = rng.args
    n = V.seq_len(v)
    c = cint(n)
    I.write(st, g.cell, g.path, Sym("rng", kind, seed, step + 1))
    kind = Str(kind)
    if I.chosen is not None:
        # the caller asks about one particular outcome
        if c is None or not step.is_const() or not seed.is_const():
            raise Undecided("shuffle at an unknown step")
        q = I.chosen(str(kind), int(seed.cval()), int(step.cval()), c)
        l = [V.seq_at(v, T.const(j)) for j in range(c)]
        I.write(st, r.cell, r.path, V.lit([l[j] for j in q]))
        return V.UNIT
    first, f0 = shuffled_before(v, kind, seed, step, n)

    def w(i):
        return f0(perm_app(kind, seed, first, step, n, i))
    if c is not None and c <= 16:
        w = V.lit([w(T.const(i)) for i in range(c)])
    else:
        w = V.gen(n, w)
    I.write(st, r.cell, r.path, w)
    return V.UNIT


def perm_app(kind, seed, first, last, n, i):
    """where item i of a table shuffled at steps first..last of one generator was before"""
    if n is ONE:
        return ZERO
    p = T.app("perm", kind, seed, first, last, n, i, isint=True, nonneg=True)
    T.BOUNDS.setdefault(T.the_atom(p).id, (ZERO, n - 1))
    return p


def shuffled_before(v, kind, seed, step, n):
    """(first step, item before it as a function of the index): a table that the same generator has been shuffling"""
    l = v.lit() if isinstance(v, Seq) else None
    if l and all(isinstance(x, Poly) for x in l):
        for a in T.atoms_rec(l[0]):
            A = T.ATOMS[a]
            if A.kind == "app" and A.args[0] == "perm" and A.args[1] == kind and A.args[2] is seed \
                    and A.args[4] is step - 1 and A.args[5] is n and A.args[6] is ZERO:
                first = A.args[3]
                if all(T.subst(l[0], {a: perm_app(kind, seed, first, step - 1, n, T.const(i))}) is x for i, x in enumerate(l)):
                    return first, lambda p: T.subst(l[0], {a: p})
    if l is None and isinstance(v, Seq):
        i = T.fresh("i", lo=ZERO, hi=n - 1)
        x = V.norm_val(V.seq_at(v, i))
        for a in T.atoms_rec(x) if isinstance(x, Poly) else ():
            A = T.ATOMS[a]
            if A.kind == "app" and A.args[0] == "perm" and A.args[1] == kind and A.args[2] is seed \
                    and A.args[4] is step - 1 and A.args[5] is n and A.args[6] is i:
                z = T.fresh("z", lo=ZERO, hi=n - 1)
                y = T.subst(x, {a: z})
                if T.the_atom(i).id not in y.fv():
                    return A.args[3], lambda p: T.subst(y, {T.the_atom(z).id: p})
    return step, lambda p: V.seq_at(v, p)


@model("rand::Rng::gen")
def m_rng_gen(I, st, a, f):
    g, rng = mut_seq(I, st, a[0])
    t = (f.get("args") or [None])[-1]
    if isinstance(rng, Sym) and rng.name == "rng":
        kind, seed, step = rng.args
        I.write(st, g.cell, g.path, Sym("rng", kind, seed, step + 1))
        if is_entropy(rng):
            I.effects.append("entropy")
            return T.elem(str(kind), seed, step, isbool=(t == "bool"), isint=(t not in FLO))
        return T.app("rng_gen", Str(kind), seed, step, isbool=(t == "bool"), isint=(t not in FLO))
    I.effects.append("entropy")
    return T.opaque("entropy")


FLO = ("f64", "f32")


@model("rand::Rng::gen_bool")
def m_rng_gen_bool(I, st, a, f):
    g, rng = mut_seq(I, st, a[0])
    if not isinstance(rng, Sym) or rng.name != "rng":
        raise Undecided("gen_bool by unknown generator")
    kind, seed, step = rng.args
    I.write(st, g.cell, g.path, Sym("rng", kind, seed, step + 1))
    if is_entropy(rng):
        I.effects.append("entropy")
        if sc(I, st, a[1]) is T.const(Fraction(1, 2)):
            return T.elem(str(kind), seed, step, isbool=True)
    return T.app("rng_gen_bool", Str(kind), seed, step, sc(I, st, a[1]), isbool=True)


@model("rand_distr::Normal::<F>::new")
def m_normal(I, st, a, f):
    return Enum(V.RES, [(0, ONE, (Sym("normal", sc(I, st, a[0]), sc(I, st, a[1])),))])


@model("rand_distr::Distribution::sample_iter")
def m_sample_iter(I, st, a, f):
    d = dr(I, st, a[0])
    if not isinstance(d, Sym) or d.name != "normal":
        raise Undecided("distribution")
    src = dr(I, st, a[1])
    if not is_entropy(src):
        raise Undecided("seeded noise")
    if isinstance(a[1], Ref):
        src = entropy(I, st)
    I.effects.append("entropy")
    mu, sd = d.args
    kind, seed, step = src.args
    return stream(V.gen(INF, lambda i: mu + sd * T.elem(str(kind), seed, step + i)))


@model("rand_distr::Distribution::sample", "rand::distributions::Distribution::sample")
def m_sample(I, st, a, f):
    d = dr(I, st, a[0])
    if not isinstance(d, Sym) or d.name != "normal":
        raise Undecided("distribution")
    return draw(I, st, a[1], d)


@model("rand::Rng::sample")
def m_rng_sample(I, st, a, f):
    d = dr(I, st, a[1])
    if not isinstance(d, Sym) or d.name != "normal":
        raise Undecided("distribution")
    return draw(I, st, a[0], d)


def draw(I, st, r, d):
    g, rng = mut_seq(I, st, r)
    if not is_entropy(rng):
        raise Undecided("seeded noise")
    I.effects.append("entropy")
    kind, seed, step = rng.args
    I.write(st, g.cell, g.path, Sym("rng", kind, seed, step + 1))
    mu, sd = d.args
    return mu + sd * T.elem(str(kind), seed, step)


# ------------------------------------------------ ndarray (subset)
# Agg("NdArray", (Seq of rows | Seq, )) ; targs = number of dimensions

def nd(seq, dims):
    return Agg("NdArray", (seq,), dims)


def nd_from(I, v):
    if isinstance(v, Agg) and v.name == "NdArray":
        return v
    if V.is_seq(v):
        return nd(v, 1)
    raise Undecided("ndarray conversion")


def nd_zip(x, y, fn):
    def b(v):
        return v.fields[0] if isinstance(v, Agg) and v.name == "NdArray" else None
    X, Y = b(x), b(y)
    dims = x.targs if X is not None else y.targs
    if X is None:
        return nd(Seq([remap(g, lambda t: fn(x, t)) for g in Y.segs]), dims)
    if Y is None:
        return nd(Seq([remap(g, lambda t: fn(t, y)) for g in X.segs]), dims)
    if x.targs != 1 or y.targs != 1:
        raise Undecided("matrix arithmetic")
    return nd(elementwise(X, Y, fn), 1)


def nd_flat(v):
    if v.targs == 1:
        return v.fields[0]
    return concat(None, lambda x: x, v.fields[0])


ND = "numpy::ndarray::"


def ndm(*names):
    def d(f):
        for n in names:
            MODELS[ND + n] = f
        return f
    return d


@ndm("impl_constructors::<impl numpy::ndarray::ArrayBase<S, D>>::zeros")
def m_nd_zeros(I, st, a, f):
    sh = a[0]
    t = str(f)
    z = V.cplx(ZERO, ZERO) if "Complex" in t else ZERO
    if isinstance(sh, Poly):
        return nd(Seq([Seg(sh, None, z)]), 1)
    r, c = sh.fields
    row = Seq([Seg(c, None, z)])
    if r.is_zero():
        return nd(Seq([]), 2)
    return nd(Seq([Seg(r, None, row)]), 2)


@ndm("impl_constructors::<impl numpy::ndarray::ArrayBase<S, numpy::ndarray::Dim<[usize; 1]>>>::from_iter",
     "impl_constructors::<impl numpy::ndarray::ArrayBase<S, numpy::ndarray::Dim<[usize; 1]>>>::from_vec")
def m_nd_from_iter(I, st, a, f):
    return nd(as_vec(as_seq(I, st, a[0])), 1)


for _n in ("arraytraits::<impl std::convert::From<&'a Slice> for numpy::ndarray::ArrayBase<numpy::ndarray::ViewRepr<&'a A>, numpy::ndarray::Dim<[usize; 1]>>>::from",
           "arraytraits::<impl std::convert::From<&'a numpy::ndarray::ArrayBase<S, D>> for numpy::ndarray::ArrayBase<numpy::ndarray::ViewRepr<&'a A>, D>>::from",
           "arraytraits::<impl std::convert::From<std::vec::Vec<A>> for numpy::ndarray::ArrayBase<S, numpy::ndarray::Dim<[usize; 1]>>>::from"):
    MODELS[ND + _n] = lambda I, st, a, f: nd_from(I, dr(I, st, a[0]))


@ndm("impl_owned_array::<impl numpy::ndarray::ArrayBase<numpy::ndarray::OwnedRepr<A>, numpy::ndarray::Dim<[usize; 2]>>>::push_row")
def m_nd_push_row(I, st, a, f):
    r, v = mut_seq(I, st, a[0])
    row = dr(I, st, a[1]).fields[0]
    I.write(st, r.cell, r.path + (("f", 0),), seq_push(v.fields[0], row))
    return Enum(V.RES, [(0, ONE, (V.UNIT,))])


@ndm("impl_methods::<impl numpy::ndarray::ArrayBase<S, D>>::reversed_axes")
def m_nd_t(I, st, a, f):
    v = a[0]
    if v.targs == 1:
        return v
    return nd(transpose(v.fields[0]), 2)


def transpose(rows):
    if len(rows.segs) != 1:
        n = V.seq_len(rows)
        if not isinstance(n, Poly) or not n.is_const() or n.cval() > 160:
            raise Undecided("transpose")
        rs = [rows.at(T.const(i)) for i in range(int(n.cval()))]
        m = V.seq_len(rs[0])
        if any(V.seq_len(r) != m for r in rs):
            raise Undecided("transpose of ragged rows")
        return V.gen(m, lambda j: V.lit([V.seq_at(r, j) for r in rs]))
    g = rows.segs[0]
    n = g.len
    w = T.fresh("i", lo=0, hi=n - 1)
    m = V.seq_len(g.at(w))
    if T.the_atom(w).id in m.fv():
        raise Undecided("transpose of ragged rows")
    return V.gen(m, lambda j: V.gen(n, lambda i: V.seq_at(g.at(i), j)))


@ndm("impl_2d::<impl numpy::ndarray::ArrayBase<S, numpy::ndarray::Dim<[usize; 2]>>>::row")
def m_nd_row(I, st, a, f):
    v = dr(I, st, a[0])
    i = sc(I, st, a[1])
    require(I, st, in_bounds(V.seq_len(v.fields[0]), i), "row out of range")
    return nd(V.seq_at(v.fields[0], i), 1)


@ndm("impl_methods::<impl numpy::ndarray::ArrayBase<S, D>>::rows")
def m_nd_rows(I, st, a, f):
    v = dr(I, st, a[0])
    return Agg("NdLanes", (Seq([remap(g, lambda t: nd(t, 1)) for g in v.fields[0].segs]),))


@ndm("impl_methods::<impl numpy::ndarray::ArrayBase<S, D>>::iter")
def m_nd_iter(I, st, a, f):
    return stream(nd_flat(dr(I, st, a[0])))


@ndm("impl_methods::<impl numpy::ndarray::ArrayBase<S, D>>::map")
def m_nd_map(I, st, a, f):
    v = dr(I, st, a[0])
    if v.targs == 1:
        return nd(map_seq(I, st, a[1], as_seq(I, st, v.fields[0])), 1)
    return nd(Seq([remap(g, lambda t: map_seq(I, st, a[1], t)) for g in v.fields[0].segs]), 2)


@ndm("numeric::impl_numeric::<impl numpy::ndarray::ArrayBase<S, D>>::sum_axis")
def m_nd_sum_axis(I, st, a, f):
    v = dr(I, st, a[0])
    ax = a[1]
    ax = cint(ax.fields[0] if isinstance(ax, Agg) else ax)
    rows = v.fields[0]
    if ax == 0:
        rows = transpose(rows)
    return nd(Seq([remap(g, lambda t: sum_seq(t)) for g in rows.segs]), 1)


@ndm("impl_methods::<impl numpy::ndarray::ArrayBase<S, D>>::as_slice",
     "impl_methods::<impl numpy::ndarray::ArrayBase<S, D>>::to_slice")
def m_nd_slice(I, st, a, f):
    return V.some(dr(I, st, a[0]).fields[0])


@ndm("impl_methods::<impl numpy::ndarray::ArrayBase<S, D>>::as_slice_mut")
def m_nd_slice_mut(I, st, a, f):
    r, v = mut_seq(I, st, a[0])
    return V.some(Ref(r.cell, r.path + (("f", 0),)))


for _n in ("impl_methods::<impl numpy::ndarray::ArrayBase<S, D>>::view",
           "impl_methods::<impl numpy::ndarray::ArrayBase<S, D>>::to_owned",
           "impl_methods::<impl numpy::ndarray::ArrayBase<S, D>>::into_owned"):
    MODELS[ND + _n] = lambda I, st, a, f: dr(I, st, a[0])


@ndm("impl_methods::<impl numpy::ndarray::ArrayBase<S, D>>::t")
def m_nd_tv(I, st, a, f):
    return m_nd_t(I, st, [dr(I, st, a[0])], f)


@ndm("impl_methods::<impl numpy::ndarray::ArrayBase<S, D>>::mapv",
     "impl_methods::<impl numpy::ndarray::ArrayBase<S, D>>::mapv_into")
def m_nd_mapv(I, st, a, f):
    return m_nd_map(I, st, a, f)


def nd_dims(v):
    rows = v.fields[0]
    n = V.seq_len(rows)
    w = T.fresh("i", lo=0, hi=n - 1)
    m = V.seq_len(V.seq_at(rows, ZERO if n.is_const() else w))
    return n, m


@ndm("impl_2d::<impl numpy::ndarray::ArrayBase<S, numpy::ndarray::Dim<[usize; 2]>>>::nrows")
def m_nd_nrows(I, st, a, f):
    return nd_dims(dr(I, st, a[0]))[0]


@ndm("impl_2d::<impl numpy::ndarray::ArrayBase<S, numpy::ndarray::Dim<[usize; 2]>>>::ncols")
def m_nd_ncols(I, st, a, f):
    return nd_dims(dr(I, st, a[0]))[1]


@ndm("impl_methods::<impl numpy::ndarray::ArrayBase<S, D>>::len")
def m_nd_len(I, st, a, f):
    v = dr(I, st, a[0])
    if v.targs == 1:
        return V.seq_len(v.fields[0])
    n, m = nd_dims(v)
    return n * m


@ndm("impl_methods::<impl numpy::ndarray::ArrayBase<S, D>>::dim")
def m_nd_dim(I, st, a, f):
    v = dr(I, st, a[0])
    return V.seq_len(v.fields[0]) if v.targs == 1 else V.tup(*nd_dims(v))


@ndm("impl_methods::<impl numpy::ndarray::ArrayBase<S, D>>::shape")
def m_nd_shape(I, st, a, f):
    v = dr(I, st, a[0])
    return V.lit([V.seq_len(v.fields[0])] if v.targs == 1 else list(nd_dims(v)))


@ndm("impl_2d::<impl numpy::ndarray::ArrayBase<S, numpy::ndarray::Dim<[usize; 2]>>>::column")
def m_nd_column(I, st, a, f):
    v = dr(I, st, a[0])
    return m_nd_row(I, st, [nd(transpose(v.fields[0]), 2), a[1]], f)


@ndm("impl_methods::<impl numpy::ndarray::ArrayBase<S, D>>::columns")
def m_nd_columns(I, st, a, f):
    return m_nd_rows(I, st, [nd(transpose(dr(I, st, a[0]).fields[0]), 2)], f)


@ndm("numeric::impl_numeric::<impl numpy::ndarray::ArrayBase<S, D>>::sum")
def m_nd_sum(I, st, a, f):
    r = sum_seq(nd_flat(dr(I, st, a[0])))
    return ZERO if r is None else r


def nd_index(I, st, v, ix):
    ix = dr(I, st, ix)
    if v.targs == 2 and V.is_seq(ix):
        i, j = V.seq_at(ix, ZERO), V.seq_at(ix, ONE)
        require(I, st, in_bounds(V.seq_len(v.fields[0]), i), "matrix row out of range")
        row = V.seq_at(v.fields[0], i)
        require(I, st, in_bounds(V.seq_len(row), j), "matrix column out of range")
        return V.seq_at(row, j)
    if v.targs == 1 and isinstance(ix, Poly):
        return V.seq_at(v.fields[0], ix)
    raise Undecided("ndarray index")


@ndm("arraytraits::<impl std::ops::Index<I> for numpy::ndarray::ArrayBase<S, D>>::index")
def m_nd_index(I, st, a, f):
    return nd_index(I, st, dr(I, st, a[0]), a[1])


@ndm("arraytraits::<impl std::ops::IndexMut<I> for numpy::ndarray::ArrayBase<S, D>>::index_mut")
def m_nd_index_mut(I, st, a, f):
    r, v = mut_seq(I, st, a[0])
    ix = dr(I, st, a[1])
    if v.targs == 2 and V.is_seq(ix):
        i, j = V.seq_at(ix, ZERO), V.seq_at(ix, ONE)
        require(I, st, in_bounds(V.seq_len(v.fields[0]), i), "matrix row out of range")
        require(I, st, in_bounds(V.seq_len(V.seq_at(v.fields[0], i)), j), "matrix column out of range")
        return Ref(r.cell, r.path + (("f", 0), ("ix", i), ("ix", j)))
    raise Undecided("ndarray index")


# ------------------------------------------------ python boundary

@model("numpy::PyArray::<T, numpy::ndarray::Dim<[usize; 1]>>::from_iter_bound")
def m_py_from_iter(I, st, a, f):
    return as_vec(as_seq(I, st, a[-1]))


@model("numpy::PyArray::<T, numpy::ndarray::Dim<[usize; 1]>>::from_vec_bound",
       "numpy::PyArray::<T, numpy::ndarray::Dim<[usize; 1]>>::from_slice_bound")
def m_py_from_vec(I, st, a, f):
    return dr(I, st, a[-1])


@model("numpy::PyReadonlyArray::<'py, T, D>::as_array")
def m_py_as_array(I, st, a, f):
    return dr(I, st, a[0])


MODELS["numpy::IntoPyArray::into_pyarray_bound"] = lambda I, st, a, f: a[0]
MODELS["<numpy::ndarray::ArrayBase<numpy::ndarray::OwnedRepr<A>, D> as numpy::IntoPyArray>::into_pyarray_bound"] = \
    lambda I, st, a, f: a[0]
MODELS["std::io::_print"] = lambda I, st, a, f: V.UNIT
MODELS["std::io::_eprint"] = lambda I, st, a, f: V.UNIT
for _n in ("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::new",
           "core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug"):
    MODELS[_n] = lambda I, st, a, f: Str("fmt")


def fallback(I, f):
    n = f.get("impl") or f["fn"]
    fn = f["fn"]
    # trait method with a concrete library implementation: use the trait-level meaning
    m = MODELS.get(fn)
    if m is not None:
        return m
    if fn in ("std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once", "std::ops::Fn::call"):
        return m_call
    if fn.startswith("std::fmt::"):
        return None
    last = fn.rsplit("::", 1)[-1]
    if "::Iterator>::" in n or fn.startswith("itertools::Itertools::"):
        return MODELS.get("std::iter::Iterator::" + last)
    return None


def m_call(I, st, a, f):
    args = a[1]
    if isinstance(args, Agg) and args.name == "()":
        args = list(args.fields)
    else:
        args = [args]
    return I.call_value(a[0], args, st)


# ---------------------------------------------------------------- parametricity

_habs = [0]


def leaves(x, fn):
    if isinstance(x, Poly):
        return fn(x)
    if isinstance(x, Agg):
        return x.rebuild([leaves(k, fn) for k in x.fields])
    if isinstance(x, Seq):
        l = x.lit()
        if l is not None:
            return V.lit([leaves(k, fn) for k in l], x.kind)
    raise Undecided("shape")


def big(p):
    if len(p.t) > 1:
        return True
    return any(T.ATOMS[a].kind in ("ge", "eq", "pos", "sum", "app", "iter") for a in T.atoms_rec(p))


def abstract_items(v):
    """an iterator over endless streams with complex items: the same over streams of free items, and the items'
    definitions.  What the iterator does is the same function of its items whatever they are."""
    fns = {}
    out = list(v.fields)
    for i, f in enumerate(out):
        if not isinstance(f, Stream) or not isinstance(f.seq, Seq) or len(f.seq.segs) != 1:
            continue
        g = f.seq.segs[0]
        if g.len is not INF or g.v is None:
            continue
        _habs[0] += 1
        w = T.fresh("h", lo=0)
        t = g.at(w)
        cnt = [0]

        def leaf(p, u=_habs[0]):
            if not big(p):
                return p
            cnt[0] += 1
            nm = "item#%d.%d" % (u, cnt[0])
            fns[nm] = (T.the_atom(w).id, p)
            return T.elem(nm, w, isbool=T.is_boolp(p), isint=T.is_int(p), nonneg=T.nonneg(p))
        try:
            t2 = leaves(t, leaf)
        except Undecided:
            continue
        if cnt[0]:
            out[i] = Stream(Seq([V.mkseg(INF, w, t2)], f.seq.kind), f.pos)
    return (v.rebuild(out), fns) if fns else (None, None)


def subst_items(x, fns, memo=None):
    """replace the free items by their definitions"""
    if memo is None:
        memo = {}

    def has(y):
        return any(T.ATOMS[a].kind == "elem" and T.ATOMS[a].args[0] in fns for a in T.atoms_rec(y))

    def go(y):
        if isinstance(y, Poly):
            if y in memo:
                return memo[y]
            r = ZERO
            for m, c in y.t.items():
                q = T.const(c)
                for a, e in m:
                    q = q * T.ppow(atom(T.ATOMS[a]), e)
                r = r + q
            memo[y] = r
            return r
        if isinstance(y, tuple):
            return tuple(go(z) for z in y)
        if isinstance(y, Seq):
            segs = []
            for s in y.segs:
                ln = s.len if s.len is INF else go(s.len)
                if s.v is None:
                    segs.append(Seg(ln, None, go(s.t)))
                else:
                    w = T.fresh("w", lo=0, hi=None if ln is INF else ln - 1)
                    segs.append(V.mkseg(ln, w, go(s.at(w))))
            return Seq(segs, y.kind)
        if isinstance(y, Agg):
            return y.rebuild([go(k) for k in y.fields])
        if isinstance(y, V.Val):
            if has(y):
                raise Undecided("items inside %s" % type(y).__name__)
        return y

    def atom(A):
        p = T.apoly_raw(A)
        if not has(p):
            return T.apoly(A)
        if A.kind == "elem" and A.args[0] in fns:
            wid, d = fns[A.args[0]]
            return T.subst(d, {wid: go(A.args[1])})
        if A.kind == "sum":
            n, bid, body = A.args
            n = go(n)
            w = T.fresh("w", lo=0, hi=n - 1)
            return T.msum(n, w, go(T.subst(body, {bid: w})))
        if A.kind == "iter":
            bid, body, init, k = A.args
            w = T.fresh("m", isint=A.isint, nonneg=False)
            return T.iterate(w, go(T.subst(body, {bid: w})), go(init), go(k))
        return T.rebuild(A, tuple(go(z) if isinstance(z, (Poly, tuple, V.Val)) else z for z in A.args))
    return go(x)
