"""Abstract values: aggregates, enums with gated variants, sequences in closed form, closures, references."""
import bisect

from . import term as T
from .term import Poly, Undecided, ZERO, ONE

INF = "inf"


class Val:
    __slots__ = ()

    def kids(self):
        return ()

    def rebuild(self, ks):
        return self

    def subst(self, mp):
        ks = self.kids()
        n = tuple(T.vsubst(k, mp) for k in ks)
        if all(a is b for a, b in zip(ks, n)):
            return self
        return self.rebuild(n)

    def fv(self):
        f = frozenset()
        for k in self.kids():
            f |= T._arg_fv(k)
        return f

    def bdepth(self):
        return max([T.depth_of(k) for k in self.kids()], default=0)

    def opq(self, seen):
        r = set()
        for k in self.kids():
            r |= T.opaques(k, seen)
        return r

    def sub_terms(self):
        return self.kids()


class Agg(Val):
    """struct / tuple / complex number"""
    __slots__ = ("name", "fields", "targs")

    def __init__(self, name, fields, targs=None):
        self.name = name
        self.fields = tuple(fields)
        self.targs = targs

    def kids(self):
        return self.fields

    def rebuild(self, ks):
        return Agg(self.name, ks, self.targs)

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join(map(repr, self.fields)))

    def __eq__(self, o):
        return isinstance(o, Agg) and self.name == o.name and self.fields == o.fields

    def __hash__(self):
        return hash((self.name, self.fields))


UNIT = Agg("()", ())


def tup(*xs):
    return Agg("()", xs)


def cplx(re, im):
    return Agg("Complex", (re, im))


class Enum(Val):
    """variants: dict idx -> (guard Poly, fields tuple); guards are exclusive and sum to 1"""
    __slots__ = ("adt", "vs")

    def __init__(self, adt, vs):
        self.adt = adt
        self.vs = tuple(sorted(((i, g, tuple(f)) for i, g, f in vs if not g.is_zero()), key=lambda x: x[0]))

    def kids(self):
        out = []
        for i, g, f in self.vs:
            out.append(g)
            out.extend(f)
        return tuple(out)

    def rebuild(self, ks):
        vs = []
        p = 0
        for i, g, f in self.vs:
            vs.append((i, ks[p], ks[p + 1:p + 1 + len(f)]))
            p += 1 + len(f)
        return Enum(self.adt, vs)

    def guard(self, i):
        for j, g, f in self.vs:
            if j == i:
                return g
        return ZERO

    def fields(self, i):
        for j, g, f in self.vs:
            if j == i:
                return f
        return None

    def __repr__(self):
        return "%s{%s}" % (self.adt.split("::")[-1], "; ".join("%s if %s: %s" % (i, g, list(f)) for i, g, f in self.vs))

    def __eq__(self, o):
        return isinstance(o, Enum) and self.adt == o.adt and self.vs == o.vs

    def __hash__(self):
        return hash((self.adt, self.vs))


OPT = "std::option::Option"
RES = "std::result::Result"


def some(x):
    return Enum(OPT, [(1, ONE, (x,))])


NONE = Enum(OPT, [(0, ONE, ())])


def opt(g, x):
    return Enum(OPT, [(0, ONE - g, ()), (1, g, (x,))])


class Seg:
    """one run of a sequence: len elements, element i given by tmpl[var := i]"""
    __slots__ = ("len", "v", "t")

    def __init__(self, ln, v, t):
        self.len = ln      # Poly or INF
        self.v = v         # canonical bound variable (Atom) or None when constant
        self.t = t

    def at(self, i):
        if self.v is None:
            return self.t
        return T.vsubst(self.t, {self.v.id: i})

    def __eq__(self, o):
        return isinstance(o, Seg) and self.len == o.len and self.v is o.v and self.t == o.t

    def __hash__(self):
        return hash((self.len, self.v.id if self.v else None, self.t))


def mkseg(ln, v, t):
    """v: Poly variable (or None); renamed to canonical"""
    if v is None or T.the_atom(v).id not in T._arg_fv(t):
        return Seg(ln, None, t)
    bv, (t2,) = T.bind(v, t)
    return Seg(ln, bv, t2)


class Seq(Val):
    """a finite or infinite sequence: concatenation of closed-form runs"""
    __slots__ = ("segs", "kind", "_offs")

    def __init__(self, segs, kind="vec"):
        self.segs = tuple(s for s in segs if not (isinstance(s.len, Poly) and s.len.is_zero()))
        self.kind = kind
        self._offs = 0

    def offs(self):
        """where each run starts and the last one ends, when all are of known length (None otherwise)"""
        if self._offs == 0:
            o, out = 0, [0]
            for s in self.segs:
                if s.len is ONE:
                    o += 1
                elif s.len is not INF and s.len.is_const() and s.len.cval().denominator == 1:
                    o += int(s.len.cval())
                else:
                    out = None
                    break
                out.append(o)
            self._offs = out
        return self._offs

    def find(self, i):
        """the run of element i (an int), when known -> (number of the run, its first index)"""
        o = self.offs()
        if o is None or not 0 <= i < o[-1]:
            return None
        j = bisect.bisect_right(o, i) - 1
        return j, o[j]

    def kids(self):
        out = []
        for s in self.segs:
            if s.len is not INF:
                out.append(s.len)
            out.append(s.t)
        return tuple(out)

    def fv(self):
        f = frozenset()
        for s in self.segs:
            if s.len is not INF:
                f |= s.len.fv()
            x = T._arg_fv(s.t)
            if s.v is not None:
                x = x - {s.v.id}
            f |= x
        return f

    def bdepth(self):
        return max([T.depth_of(k) for k in self.kids()] + [T.depth_of(s.v) if s.v else 0 for s in self.segs], default=0)

    def subst(self, mp):
        if not (self.fv() & mp.keys()) and all(T.ATOMS[k].kind == "var" for k in mp):
            return self
        segs = []
        for s in self.segs:
            ln = s.len if s.len is INF else T.subst(s.len, mp)
            if s.v is None:
                segs.append(Seg(ln, None, T.vsubst(s.t, mp)))
            else:
                hi = None if ln is INF else ln - 1
                w = T.fresh("w", lo=0, hi=hi)
                segs.append(mkseg(ln, w, T.vsubst(T.vsubst(s.t, {s.v.id: w}), mp)))
        return Seq(segs, self.kind)

    def length(self):
        if len(self.segs) > 8 and self.offs() is not None:
            return T.const(self.offs()[-1])
        n = ZERO
        for s in self.segs:
            if s.len is INF:
                return INF
            n = n + s.len
        return n

    def lit(self):
        """list of elements when every run has constant length (<= 64 total)"""
        out = []
        for s in self.segs:
            if s.len is INF or not s.len.is_const() or s.len.cval() > 64:
                return None
            for i in range(int(s.len.cval())):
                out.append(s.at(T.const(i)))
            if len(out) > 64:
                return None
        return out

    def at(self, i):
        """element i (assumed in range)"""
        if len(self.segs) == 1:
            return self.segs[0].at(i)
        if not self.segs:
            raise Undecided("index into empty sequence")
        if i.is_const() and i.cval().denominator == 1:
            r = self.find(int(i.cval()))
            if r is not None:
                s = self.segs[r[0]]
                return s.t if s.v is None else s.at(T.const(int(i.cval()) - r[1]))
        res = None
        off = ZERO
        conds = []
        for j, s in enumerate(self.segs):
            if s.len is INF or j == len(self.segs) - 1:
                conds.append((None, s, off))
                break
            c = T.ge0(off + s.len - 1 - i)     # i < off+len
            conds.append((c, s, off))
            if c is ONE:
                break
            off = off + s.len
        # drop impossible prefixes
        conds = [(c, s, o) for c, s, o in conds if c is None or not c.is_zero()]
        c, s, o = conds[-1]
        res = s.at(i - o)
        for c, s, o in reversed(conds[:-1]):
            with T.assume(c):
                x = s.at(T.renorm(i) - o)
            res = merge(c, x, res)
        return res

    def __repr__(self):
        return "%s[%s]" % (self.kind, " ++ ".join("%s<%s: %r" % (T.atom_str(s.v) if s.v else "_", s.len, s.t) for s in self.segs))

    def __eq__(self, o):
        return isinstance(o, Seq) and self.segs == o.segs

    def __hash__(self):
        return hash(self.segs)


def lit(xs, kind="vec"):
    return Seq([Seg(ONE, None, x) for x in xs], kind)


def gen(n, f, kind="vec"):
    """sequence of length n with element f(i)"""
    hi = None if n is INF else n - 1
    w = T.fresh("i", lo=0, hi=hi)
    return Seq([mkseg(n, w, f(w))], kind)


class Stream(Val):
    """an iterator positioned inside a sequence"""
    __slots__ = ("seq", "pos")

    def __init__(self, seq, pos=ZERO):
        self.seq = seq
        self.pos = pos

    def kids(self):
        return (self.seq, self.pos)

    def rebuild(self, ks):
        return Stream(*ks)

    def __repr__(self):
        return "Stream(%r @%s)" % (self.seq, self.pos)

    def __eq__(self, o):
        return isinstance(o, Stream) and self.seq == o.seq and self.pos == o.pos

    def __hash__(self):
        return hash((self.seq, self.pos))


class SymSeq(Val):
    """loop-carried sequence whose content is a symbol (content solved by the loop summariser)"""
    __slots__ = ("sid", "len", "shape", "kind")

    def __init__(self, sid, ln, shape, kind="vec"):
        self.sid = sid
        self.len = ln
        self.shape = shape
        self.kind = kind

    def kids(self):
        return (self.len,) if self.len is not INF else ()

    def rebuild(self, ks):
        return SymSeq(self.sid, ks[0], self.shape, self.kind)

    def __repr__(self):
        return "SymSeq(%s,len=%s)" % (self.sid, self.len)

    def __eq__(self, o):
        return isinstance(o, SymSeq) and self.sid == o.sid and self.len == o.len

    def __hash__(self):
        return hash((self.sid, self.len))


class OpSeq(Val):
    """an update of a SymSeq inside a loop body: op in push, pushf, popb, popf, set, ext"""
    __slots__ = ("op", "base", "args")

    def __init__(self, op, base, *args):
        self.op = op
        self.base = base
        self.args = tuple(args)

    def kids(self):
        return (self.base,) + self.args

    def rebuild(self, ks):
        return OpSeq(self.op, ks[0], *ks[1:])

    def __repr__(self):
        return "%s(%r,%s)" % (self.op, self.base, ",".join(map(repr, self.args)))

    def __eq__(self, o):
        return isinstance(o, OpSeq) and self.op == o.op and self.base == o.base and self.args == o.args

    def __hash__(self):
        return hash((self.op, self.base, self.args))


class Closure(Val):
    __slots__ = ("key", "caps", "env")

    def __init__(self, key, caps, env=None):
        self.key = key
        self.caps = tuple(caps)
        self.env = env

    def kids(self):
        return self.caps

    def rebuild(self, ks):
        return Closure(self.key, ks, self.env)

    def __repr__(self):
        return "Closure(%s; %s)" % (self.key.split("::")[-2:], ", ".join(map(repr, self.caps)))

    def __eq__(self, o):
        return isinstance(o, Closure) and self.key == o.key and self.caps == o.caps

    def __hash__(self):
        return hash((self.key, self.caps))


class Fn(Val):
    """function item; ref = json of the callee"""
    __slots__ = ("ref", "id")

    def __init__(self, ref):
        self.ref = ref
        self.id = ref.get("fn") + repr(ref.get("args"))

    def __repr__(self):
        return "fn:%s" % self.ref.get("fn")

    def __eq__(self, o):
        return isinstance(o, Fn) and self.id == o.id

    def __hash__(self):
        return hash(self.id)


class Ref(Val):
    """mutable reference: cell + path"""
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = tuple(path)

    def kids(self):
        return tuple(x for p in self.path for x in p[1:] if isinstance(x, Poly))

    def rebuild(self, ks):
        ks = list(ks)
        path = []
        for p in self.path:
            path.append((p[0],) + tuple(ks.pop(0) if isinstance(x, Poly) else x for x in p[1:]))
        return Ref(self.cell, path)

    def __repr__(self):
        return "&mut %s%s" % (self.cell, list(self.path))

    def __eq__(self, o):
        return isinstance(o, Ref) and self.cell == o.cell and self.path == o.path

    def __hash__(self):
        return hash((self.cell, self.path))


class Box(Val):
    """shared reference: a snapshot of the borrowed value"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def kids(self):
        return (self.v,)

    def rebuild(self, ks):
        return Box(*ks)

    def __repr__(self):
        return "&%r" % (self.v,)

    def __eq__(self, o):
        return isinstance(o, Box) and self.v == o.v

    def __hash__(self):
        return hash(("box", self.v))


class Sym(Val):
    """named abstract object (rng state, fft plan, opaque handle): name + args"""
    __slots__ = ("name", "args")

    def __init__(self, name, *args):
        self.name = name
        self.args = tuple(args)

    def kids(self):
        return tuple(a for a in self.args if isinstance(a, (Poly, Val)))

    def rebuild(self, ks):
        ks = list(ks)
        return Sym(self.name, *[ks.pop(0) if isinstance(a, (Poly, Val)) else a for a in self.args])

    def __repr__(self):
        return "%s<%s>" % (self.name, ", ".join(map(repr, self.args)))

    def __eq__(self, o):
        return isinstance(o, Sym) and self.name == o.name and self.args == o.args

    def __hash__(self):
        return hash((self.name, self.args))


class Str(Val):
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return repr(self.s)

    def __eq__(self, o):
        return isinstance(o, Str) and self.s == o.s

    def __hash__(self):
        return hash(self.s)


class Discr(Val):
    """discriminant of an enum value"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def kids(self):
        return (self.e,)

    def rebuild(self, ks):
        return Discr(*ks)


class Opaque(Val):
    """not understood"""
    __slots__ = ("why", "uid")
    _n = [0]

    def __init__(self, why):
        Opaque._n[0] += 1
        self.why = why
        self.uid = Opaque._n[0]

    def opq(self, seen):
        return {self.why}

    def __repr__(self):
        return "?<%s>" % self.why

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return self.uid


def deref_all(v):
    while isinstance(v, Box):
        v = v.v
    return v


def merge(c, a, b):
    """value equal to a when c=1, b when c=0"""
    if c is ONE:
        return a
    if c.is_zero():
        return b
    if a is b:
        return a
    if isinstance(a, Poly) and isinstance(b, Poly):
        return T.ite(c, a, b)
    if a == b:
        return a
    if isinstance(a, Opaque):
        return a
    if isinstance(b, Opaque):
        return b
    if isinstance(a, Box) and isinstance(b, Box):
        return Box(merge(c, a.v, b.v))
    if isinstance(a, Agg) and isinstance(b, Agg) and a.name == b.name and len(a.fields) == len(b.fields):
        return Agg(a.name, [merge(c, x, y) for x, y in zip(a.fields, b.fields)], a.targs)
    if isinstance(a, Enum) and isinstance(b, Enum) and a.adt == b.adt:
        vs = []
        ids = sorted({i for i, _, _ in a.vs} | {i for i, _, _ in b.vs})
        for i in ids:
            ga, gb = a.guard(i), b.guard(i)
            fa, fb = a.fields(i), b.fields(i)
            g = T.ite(c, ga, gb)
            if fa is None:
                f = fb
            elif fb is None:
                f = fa
            else:
                f = tuple(merge(c, x, y) for x, y in zip(fa, fb))
            vs.append((i, g, f))
        return Enum(a.adt, vs)
    if isinstance(a, Closure) and isinstance(b, Closure) and a.key == b.key:
        return Closure(a.key, [merge(c, x, y) for x, y in zip(a.caps, b.caps)], a.env)
    if isinstance(a, Stream) and isinstance(b, Stream):
        if a.seq == b.seq:
            return Stream(a.seq, T.ite(c, a.pos, b.pos))
        return Stream(merge(c, drop(a.seq, a.pos), drop(b.seq, b.pos)))
    if isinstance(a, Seq) and isinstance(b, Seq):
        return merge_seq(c, a, b)
    if isinstance(a, OpSeq) and a.op == "set" and a.base == b:
        i, e = a.args
        return OpSeq("set", b, i, merge(c, e, seq_at(b, i)))
    if isinstance(b, OpSeq) and b.op == "set" and b.base == a:
        return merge(ONE - c, b, a)
    if isinstance(a, OpSeq) and isinstance(b, OpSeq) and a.op == b.op and a.base == b.base:
        if a.op in ("push", "pushf"):
            return OpSeq(a.op, a.base, merge(c, a.args[0], b.args[0]))
        if a.op == "set" and a.args[0] == b.args[0]:
            return OpSeq("set", a.base, a.args[0], merge(c, a.args[1], b.args[1]))
    if isinstance(a, OpSeq) and a.op in ("popb", "popf") and a.base == b:
        # conditional pop
        return OpSeq(a.op, b, a.args[0] * c if a.args else c)
    if isinstance(b, OpSeq) and b.op in ("popb", "popf") and b.base == a:
        return merge(ONE - c, b, a)
    if isinstance(a, Ref) and isinstance(b, Ref) and a.cell == b.cell and len(a.path) == len(b.path):
        path = []
        for p, q in zip(a.path, b.path):
            if p == q:
                path.append(p)
            elif p[0] == q[0] == "ix":
                path.append(("ix", T.ite(c, p[1], q[1])))
            else:
                return Opaque("merge of references")
        return Ref(a.cell, path)
    if isinstance(a, Sym) and isinstance(b, Sym) and a.name == b.name and len(a.args) == len(b.args) and \
            a.name in ("rng", "count"):
        args = []
        for x, y in zip(a.args, b.args):
            if x == y:
                args.append(x)
            elif isinstance(x, (Poly, Val)) and isinstance(y, (Poly, Val)):
                args.append(merge(c, x, y))
            else:
                return Opaque("merge of %s" % a.name)
        return Sym(a.name, *args)
    return Opaque("merge %s/%s" % (type(a).__name__, type(b).__name__))


def merge_seq(c, a, b):
    la, lb = a.length(), b.length()
    if (la is INF) != (lb is INF):
        return Opaque("merge of finite and infinite sequence")
    if la is INF:
        return gen(INF, lambda i: merge(c, a.at(i), b.at(i)), a.kind)
    if la.is_zero():
        n = (ONE - c) * lb
        return Seq([Seg((ONE - c) * s.len, s.v, s.t) for s in b.segs], b.kind)
    if lb.is_zero():
        return Seq([Seg(c * s.len, s.v, s.t) for s in a.segs], a.kind)
    n = T.ite(c, la, lb)
    if len(a.segs) == len(b.segs) and all(x.len == y.len for x, y in zip(a.segs, b.segs)):
        segs = []
        for x, y in zip(a.segs, b.segs):
            w = T.fresh("i", lo=0, hi=x.len - 1)
            segs.append(mkseg(x.len, w, merge(c, x.at(w), y.at(w))))
        return Seq(segs, a.kind)
    w = T.fresh("i", lo=0, hi=n - 1)
    with T.assume(c):
        x = a.at(w)
    with T.assume(ONE - c):
        y = b.at(w)
    return Seq([mkseg(n, w, merge(c, x, y))], a.kind)


def drop(seq, k):
    """sequence without its first k elements (k within range)"""
    if k.is_zero():
        return seq
    segs = list(seq.segs)
    out = []
    while segs:
        s = segs[0]
        if s.len is not INF and T.nonneg(k - s.len):
            k = k - s.len
            segs.pop(0)
            if k.is_zero():
                return Seq(segs, seq.kind)
            continue
        if s.len is INF or T.nonneg(s.len - k) or len(segs) == 1:
            ln = INF if s.len is INF else s.len - k
            w = T.fresh("i", lo=0, hi=None if ln is INF else ln - 1)
            out.append(mkseg(ln, w, s.at(w + k)))
            out.extend(segs[1:])
            return Seq(out, seq.kind)
        # undecidable split point: single closed form
        n = seq.length()
        if n is INF:
            return gen(INF, lambda i: seq.at(i + k), seq.kind)
        raise Undecided("drop at undecidable point")
    return Seq([], seq.kind)


def take(seq, k):
    """first k elements (k <= length assumed)"""
    out = []
    off = ZERO
    for j, s in enumerate(seq.segs):
        left = k - off
        if s.len is not INF and T.nonneg(left - s.len):
            out.append(s)
            off = off + s.len
            continue
        if s.len is INF or T.nonneg(s.len - left) or j == len(seq.segs) - 1:
            out.append(Seg(left, s.v, s.t))
            return Seq(out, seq.kind)
        raise Undecided("take at undecidable point")
    return Seq(out, seq.kind)


def seq_len(v):
    if isinstance(v, Seq):
        return v.length()
    if isinstance(v, SymSeq):
        return v.len
    if isinstance(v, OpSeq):
        n = seq_len(v.base)
        if n is INF:
            return n
        if v.op in ("push", "pushf"):
            return n + 1
        if v.op in ("popb", "popf"):
            return n - (v.args[0] if v.args else ONE)
        if v.op == "set":
            return n
        if v.op == "ext":
            m = v.args[0].length()
            return n + m
    raise Undecided("length of %s" % type(v).__name__)


def shape_select(shape, name, i):
    """structured symbolic element"""
    if isinstance(shape, Agg):
        return Agg(shape.name, [shape_select(f, "%s.%d" % (name, j), i) for j, f in enumerate(shape.fields)])
    if isinstance(shape, Seq):
        ln = shape.length()
        inner = shape.segs[0].t if shape.segs else ZERO
        # element of a nested sequence: select with two indices
        return SymSeq((name, i), ln, inner, shape.kind)
    if shape == "bool":
        return T.elem(name, i, isbool=True)
    if shape == "int":
        return T.elem(name, i, isint=True, nonneg=True)
    return T.elem(name, i)


def seq_at(v, i):
    if isinstance(v, Seq):
        return v.at(i)
    if isinstance(v, SymSeq):
        if v.shape is None:
            raise Undecided("element of loop-carried sequence of unknown shape")
        if isinstance(v.sid, tuple):
            n, j = v.sid
            return T.elem(n, j, i, isbool=(v.shape == "bool"), isint=(v.shape in ("int", "bool")))
        return shape_select(v.shape, v.sid, i)
    if isinstance(v, OpSeq):
        if v.op == "push":
            n = seq_len(v.base)
            e = T.eqz(i - n)
            if e is ONE:
                return v.args[0]
            if e.is_zero():
                return seq_at(v.base, i)
            return merge(e, v.args[0], seq_at(v.base, i))
        if v.op == "pushf":
            e = T.eqz(i)
            if e is ONE:
                return v.args[0]
            x = seq_at(v.base, i - 1)
            return x if e.is_zero() else merge(e, v.args[0], x)
        if v.op == "popb":
            return seq_at(v.base, i)
        if v.op == "popf":
            return seq_at(v.base, i + (v.args[0] if v.args else ONE))
        if v.op == "set":
            e = T.eqz(i - v.args[0])
            if e is ONE:
                return v.args[1]
            x = seq_at(v.base, i)
            return x if e.is_zero() else merge(e, v.args[1], x)
        if v.op == "ext":
            n = seq_len(v.base)
            c = T.ge0(n - 1 - i)
            if c is ONE:
                return seq_at(v.base, i)
            if c.is_zero():
                return v.args[0].at(i - n)
            return merge(c, seq_at(v.base, i), v.args[0].at(i - n))
    raise Undecided("element of %s" % type(v).__name__)


def is_seq(v):
    return isinstance(v, (Seq, SymSeq, OpSeq))


def norm_val(v):
    """re-simplify under the current assumptions"""
    if isinstance(v, Poly):
        return T.renorm(v)
    if isinstance(v, Seq):
        return Seq([Seg(s.len if s.len is INF else T.renorm(s.len), s.v, norm_val(s.t)) for s in v.segs], v.kind)
    if isinstance(v, Enum):
        return Enum(v.adt, [(i, T.renorm(g), tuple(norm_val(x) for x in f)) for i, g, f in v.vs])
    if isinstance(v, Val):
        ks = v.kids()
        n = tuple(norm_val(k) if isinstance(k, (Poly, Val)) else k for k in ks)
        if all(a is b for a, b in zip(ks, n)):
            return v
        return v.rebuild(n)
    return v
