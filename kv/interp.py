"""Value analysis of MIR: a forward dataflow pass over each body's loop-collapsed control-flow graph.

Values are closed-form terms (kv.term / kv.val).  Joins merge values with gates (gated SSA); loops, local
`Iterator::next` implementations and stateful closures are summarised by solving their recurrences
(kv.loops).  Nothing is executed and no path is enumerated; a construct outside the domain yields an
opaque term, which can never discharge an obligation nor raise an alarm.
"""
import json
from fractions import Fraction
from . import term as T
from . import val as V
from .term import Poly, Undecided, ZERO, ONE
from .val import Agg, Enum, Seq, Seg, Stream, SymSeq, OpSeq, Closure, Fn, Ref, Sym, Str, Discr, Opaque, INF


class Diverge(Exception):
    pass


class State:
    __slots__ = ("store", "path")

    def __init__(self, store, path=()):
        self.store = store
        self.path = path

    def clone(self):
        return State(dict(self.store), self.path)


class Frame:
    __slots__ = ("body", "fid", "env", "prom")

    def __init__(self, body, fid, env):
        self.body = body
        self.fid = fid
        self.env = env


_fid = [0]


def new_id(p):
    _fid[0] += 1
    return "%s%d" % (p, _fid[0])


def prod(cs):
    r = ONE
    for c in cs:
        r = r * c
    return r


def common_prefix(a, b):
    n = 0
    for x, y in zip(a, b):
        if x is not y:
            break
        n += 1
    return n


def merge_states(a, b):
    n = common_prefix(a.path, b.path)
    pre = a.path[:n]
    ra, rb = a.path[n:], b.path[n:]
    with T.assume(*pre):
        pa, pb = prod(ra), prod(rb)
        g = T.renorm(pa + pb)
        if ra and rb and (ra[0] + rb[0]) is ONE:
            c = ra[0]
        else:
            c = pa
        if not ra and not rb:
            raise Undecided("join of indistinguishable paths")
        path = pre if g is ONE else pre + (g,)
        store = dict(a.store)
        with T.assume(*(() if g is ONE else (g,))):
            for k, vb in b.store.items():
                va = store.get(k)
                if va is None:
                    store[k] = vb
                elif va is not vb:
                    store[k] = V.merge(c, va, vb)
    return State(store, path)


def merge_all(states):
    s = states[0]
    for t in states[1:]:
        s = merge_states(s, t)
    return s


# ---------------------------------------------------------------- structured access

def const_int(p):
    return int(p.cval()) if isinstance(p, Poly) and p.is_const() and p.cval().denominator == 1 else None


def seq_set(v, i, x):
    if isinstance(v, Seq):
        ci = const_int(i)
        r = v.find(ci) if ci is not None else None
        if r is not None:
            j, a = r
            s = v.segs[j]
            n = v.offs()[j + 1] - a
            if n == 1:
                w = Seq.__new__(Seq)
                w.segs = v.segs[:j] + (Seg(ONE, None, x),) + v.segs[j + 1:]
                w.kind = v.kind
                w._offs = v._offs
                return w
            out = list(v.segs[:j])
            if ci > a:
                out.append(Seg(T.const(ci - a), s.v, s.t))
            out.append(Seg(ONE, None, x))
            if ci + 1 < a + n:
                w = T.fresh("i", lo=0, hi=T.const(a + n - ci - 2))
                out.append(V.mkseg(T.const(a + n - ci - 1), w, s.at(w + (ci - a + 1))))
            out.extend(v.segs[j + 1:])
            return Seq(out, v.kind)
        l = v.lit()
        if l is not None:
            if ci is not None:
                if not 0 <= ci < len(l):
                    raise Undecided("store outside sequence")
                l[ci] = x
                return V.lit(l, v.kind)
            if len(l) <= 16:
                return V.lit([V.merge(T.eqz(i - j), x, e) for j, e in enumerate(l)], v.kind)
        n = v.length()
        # split when the position is decidable
        off = ZERO
        for j, s in enumerate(v.segs):
            if T.nonneg(i - off) and (s.len is INF or T.nonneg(off + s.len - 1 - i)):
                r = i - off
                out = list(v.segs[:j])
                out.append(Seg(r, s.v, s.t))
                out.append(Seg(ONE, None, x))
                ln = INF if s.len is INF else s.len - r - 1
                w = T.fresh("i", lo=0, hi=None if ln is INF else ln - 1)
                out.append(V.mkseg(ln, w, s.at(w + r + 1)))
                out.extend(v.segs[j + 1:])
                return norm_seq(Seq(out, v.kind))
            if s.len is INF:
                break
            off = off + s.len
        return V.gen(n, lambda j: V.merge(T.eqz(j - i), x, v.at(j)), v.kind)
    if isinstance(v, (SymSeq, OpSeq)):
        if isinstance(v, OpSeq) and v.op == "set" and v.args[0] is i:
            return OpSeq("set", v.base, i, x)
        return OpSeq("set", v, i, x)
    raise Undecided("element store into %s" % type(v).__name__)


def norm_seq(s):
    """merge adjacent constant literal runs is unnecessary; drop empty runs (done by Seq)"""
    return s


def sub_seq(v, a, n):
    """elements a..a+n"""
    if isinstance(v, Opaque):
        return v
    if isinstance(v, Seq):
        if isinstance(a, Poly) and a.is_zero():
            ln = v.length()
            if ln is n or (ln is not INF and n is not INF and (ln - n).is_zero()):
                return v
        try:
            d = V.drop(v, a)
            return d if n is INF else V.take(d, n)
        except Undecided:
            return V.gen(n, lambda j: v.at(j + a), v.kind)
    return V.gen(n, lambda j: V.seq_at(v, j + a))


def get1(v, step):
    t = step[0]
    if isinstance(v, Opaque):
        return v
    if t == "f":
        i = step[1]
        if isinstance(v, Agg):
            return v.fields[i]
        if isinstance(v, Closure):
            return v.caps[i]
        if isinstance(v, Sym):
            return Opaque("field of %s" % v.name)
        if isinstance(v, Poly) and i == 0:
            return v          # transparent newtype
        raise Undecided("field of %s" % type(v).__name__)
    if t == "vf":
        if isinstance(v, Enum):
            f = v.fields(step[1])
            if f is None:
                raise Undecided("payload of absent variant")
            return f[step[2]]
        raise Undecided("variant of %s" % type(v).__name__)
    if t == "ix":
        return V.seq_at(v, step[1])
    if t == "sub":
        return sub_seq(v, step[1], step[2])
    raise Undecided("projection %s" % (step,))


def set1(v, step, x):
    t = step[0]
    if isinstance(v, Opaque):
        return v
    if t == "f":
        i = step[1]
        if isinstance(v, Agg):
            fs = list(v.fields)
            fs[i] = x
            return Agg(v.name, fs, v.targs)
        if isinstance(v, Closure):
            fs = list(v.caps)
            fs[i] = x
            return Closure(v.key, fs, v.env)
        if isinstance(v, Poly) and i == 0:
            return x
        raise Undecided("field store into %s" % type(v).__name__)
    if t == "vf":
        if isinstance(v, Enum):
            vs = []
            hit = False
            for i, g, f in v.vs:
                if i == step[1]:
                    f = list(f)
                    f[step[2]] = x
                    hit = True
                vs.append((i, g, f))
            if not hit:
                raise Undecided("payload of absent variant")
            return Enum(v.adt, vs)
        raise Undecided("variant store")
    if t == "ix":
        return seq_set(v, step[1], x)
    if t == "sub":
        a, n = step[1], step[2]
        if not isinstance(v, Seq) or not isinstance(x, Seq):
            raise Undecided("slice store")
        if a.is_zero() and (v.length() is n or (v.length() is not INF and (v.length() - n).is_zero())):
            return x
        pre = V.take(v, a)
        post = V.drop(v, a + n)
        return Seq(pre.segs + x.segs + post.segs, v.kind)
    raise Undecided("projection store %s" % (step,))


def get_path(v, path):
    for s in path:
        v = get1(v, s)
    return v


def set_path(v, path, x):
    if not path:
        return x
    if len(path) == 1:
        return set1(v, path[0], x)
    return set1(v, path[0], set_path(get1(v, path[0]), path[1:], x))


# ---------------------------------------------------------------- float literals

import math as _math
_PI_TAB = {}
for _n in range(-64, 65):
    for _d in (1, 2, 3, 4, 6, 8):
        if _n:
            _PI_TAB.setdefault(_math.pi * _n / _d, Fraction(_n, _d))


def float_const(s):
    x = float(s)
    if x != x or x in (float("inf"), float("-inf")):
        return T.app("float:" + s)
    if abs(x) > 1e-6 and x in _PI_TAB and not (x == int(x)):
        return T.PI.scale(_PI_TAB[x])
    if x == _math.sqrt(2):
        return T.sqrt(T.const(2))
    if x == 1 / _math.sqrt(2) or x == _math.sqrt(0.5):
        return T.sqrt(T.const(2)).scale(Fraction(1, 2))
    return T.const(Fraction(s))


INT_BITS = {"u8": (8, False), "u16": (16, False), "u32": (32, False), "u64": (64, False), "usize": (64, False),
            "u128": (128, False), "i8": (8, True), "i16": (16, True), "i32": (32, True), "i64": (64, True),
            "isize": (64, True), "i128": (128, True)}
FLOATS = ("f64", "f32")


def subst_ty(ty, env):
    if not env:
        return ty
    if isinstance(ty, dict):
        if "param" in ty:
            return env.get(ty["param"], ty)
        return {k: subst_ty(v, env) if isinstance(v, (dict, list)) else v for k, v in ty.items()}
    if isinstance(ty, list):
        return [subst_ty(x, env) for x in ty]
    return ty


def bind_ty(pat, ty, env):
    """match impl self type pattern against concrete args"""
    if isinstance(pat, dict) and "param" in pat:
        env.setdefault(pat["param"], ty)
        return
    if isinstance(pat, dict) and "const" in pat and isinstance(pat["const"], dict) and "param" in pat["const"]:
        env.setdefault(pat["const"]["param"], ty.get("const") if isinstance(ty, dict) and "const" in ty else ty)
        return
    if isinstance(pat, dict) and isinstance(ty, dict):
        for k in pat:
            if k in ty:
                bind_ty(pat[k], ty[k], env)
    elif isinstance(pat, list) and isinstance(ty, list):
        for a, b in zip(pat, ty):
            bind_ty(a, b, env)


def vec_literals(b):
    """vec![a, b]: the array written into a fresh box through its raw pointer becomes the box's value"""
    boxes = {}
    for bl in b.get("blocks") or ():
        t = bl["t"]
        if t[0] == "call" and isinstance(t[1], dict) and t[1].get("fn") == "std::boxed::Box::<T>::new_uninit" and not t[3][1]:
            boxes[t[3][0]] = bl
    if not boxes:
        return
    for bl in b["blocks"]:
        ptr = {}
        out = []
        for s in bl["s"]:
            if s[0] == "=" and s[2][0] == "cast" and s[2][1] == "BoxDerefTransmute" and not s[1][1]:
                src = s[2][2].get("cp") or s[2][2].get("mv")
                if src and src[0] in boxes and src[1] == [{"f": 0}]:
                    ptr[s[1][0]] = src[0]
                    continue
            if s[0] == "=" and s[1][0] in ptr and s[1][1] == ["*", {"f": 1}, {"f": 0}]:
                s = [s[0], [ptr[s[1][0]], []]] + list(s[2:])
            out.append(s)
        if ptr:
            bl["s"] = out
            for l in set(ptr.values()):
                t = boxes[l]["t"]
                boxes[l]["t"] = ["goto", t[4]]


class Dump:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.bodies = {}
        for b in d["bodies"]:
            vec_literals(b)
            self.bodies.setdefault(b["key"], b)
        self.by_path = {}
        for b in d["bodies"]:
            self.by_path.setdefault(b["path"], b)
        self.adts = {a["path"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.impl_of = {}
        for im in d["impls"]:
            st = im["self"]
            if isinstance(st, dict) and "adt" in st and im["trait"]:
                self.impl_of[(im["trait"], st["adt"])] = im


class Interp:
    def __init__(self, dump):
        self.d = dump
        self.panics = []          # (path, fn path, span, text)
        self.called = set()       # body keys analysed
        self.unknown = {}         # callee -> count
        self.sites = 0
        self.depth = 0
        self.stream_cache = {}
        self.cfg_cache = {}
        from . import models
        self.models = models.MODELS
        self.fallback = models.fallback
        self.M = models
        self.effects = []
        self.trace = False
        self.uninterpreted = set()
        self.fnstack = []
        self.handles = 0        # handles on the system's randomness given out
        self.demand = None
        self.chosen = None        # outcome of each shuffle, where one in particular is looked at
        self.stubs = {}           # path -> summary standing for that function's result
        self.stubbed = []         # (path, arguments) of the calls summarised
        self._pure = {}

    def where(self):
        return self.fnstack[-1] if self.fnstack else "?"

    def pure(self, body):
        """no entropy or global state reachable from the body (direct calls only)"""
        r = self._pure.get(body["key"])
        if r is None:
            self._pure[body["key"]] = True
            r = True
            for b in body["blocks"]:
                t = b["t"]
                if t[0] == "call" and "fn" in t[1]:
                    n = t[1].get("impl") or t[1]["fn"]
                    if "thread_rng" in n or "random" in n.split("::")[-1] or n.startswith("std::time") \
                            or n.startswith("std::env"):
                        r = False
                    k = t[1].get("implkey") or t[1]["key"]
                    if k in self.d.bodies and not self.pure(self.d.bodies[k]):
                        r = False
            self._pure[body["key"]] = r
        return r

    # ------------------------------------------------------------ CFG

    def succs(self, body, bb):
        t = body["blocks"][bb]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == "drop":
            return [t[1]]
        if k == "assert":
            return [t[3]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        return []

    def region(self, body, blocks, header, entry):
        """topological order of SCC-collapsed subgraph; edges to `header` are cut"""
        key = (id(body), blocks, header, entry)
        r = self.cfg_cache.get(key)
        if r is not None:
            return r
        index = {}
        low = {}
        stack = []
        on = set()
        out = []
        cnt = [0]

        def edges(b):
            return [s for s in self.succs(body, b) if s in blocks and s != header]

        def strong(v0):
            work = [(v0, iter(edges(v0)))]
            index[v0] = low[v0] = cnt[0]
            cnt[0] += 1
            stack.append(v0)
            on.add(v0)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        stack.append(w)
                        on.add(w)
                        work.append((w, iter(edges(w))))
                        adv = True
                        break
                    elif w in on:
                        low[v] = min(low[v], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    out.append(comp)

        strong(entry)
        out.reverse()
        order = []
        for comp in out:
            loop = len(comp) > 1 or comp[0] in edges(comp[0])
            order.append((frozenset(comp), loop))
        self.cfg_cache[key] = order
        return order

    def run_region(self, fr, blocks, header, entry, st):
        """-> dict target -> [State] for edges leaving `blocks` (or returning to header)"""
        body = fr.body
        order = self.region(body, blocks, header, entry)
        pending = {entry: [st]}
        exits = {}

        def push(t, s):
            if t in blocks and t != header:
                pending.setdefault(t, []).append(s)
            else:
                exits.setdefault(t, []).append(s)
        for comp, loop in order:
            if not loop:
                (bb,) = comp
                ss = pending.pop(bb, None)
                if not ss:
                    continue
                for t, s in self.exec_block(fr, bb, merge_all(ss)):
                    push(t, s)
            else:
                ents = [b for b in comp if pending.get(b)]
                if not ents:
                    continue
                if len(ents) > 1:
                    raise Undecided("irreducible loop")
                h = ents[0]
                s = merge_all(pending.pop(h))
                from . import loops
                for t, s2 in loops.run_cfg_loop(self, fr, comp, h, s):
                    push(t, s2)
        return exits

    # ------------------------------------------------------------ places and operands

    def resolve(self, fr, place, st):
        cell = (fr.fid, place[0])
        path = ()
        pend_v = None
        for p in place[1]:
            if p == "*":
                v = self.read_cell(st, cell, path)
                if isinstance(v, Ref):
                    cell, path = v.cell, v.path
                continue
            if "v" in p:
                pend_v = p["v"]
                continue
            if "f" in p:
                if pend_v is not None:
                    path = path + (("vf", pend_v, p["f"]),)
                    pend_v = None
                else:
                    path = path + (("f", p["f"]),)
                continue
            if "ix" in p:
                i = st.store[(fr.fid, p["ix"])]
                path = path + (("ix", T.renorm(self.scalar(i))),)
                continue
            if "cix" in p:
                i = T.const(p["cix"])
                if p["end"]:
                    n = V.seq_len(self.read_cell(st, cell, path))
                    i = n - p["cix"]
                path = path + (("ix", i),)
                continue
            if "sub" in p:
                n = V.seq_len(self.read_cell(st, cell, path))
                if p["end"]:
                    path = path + (("sub", T.const(p["sub"]), n - p["sub"] - p["to"]),)
                else:
                    path = path + (("sub", T.const(p["sub"]), T.const(p["to"] - p["sub"])),)
                continue
            raise Undecided("place projection")
        return cell, path

    def read_cell(self, st, cell, path):
        if cell not in st.store:
            raise Undecided("read of unset cell")
        return get_path(st.store[cell], path)

    def read(self, st, ref):
        return self.read_cell(st, ref.cell, ref.path)

    def write(self, st, cell, path, v):
        if path:
            if cell not in st.store:
                raise Undecided("partial write to unset cell")
            v = set_path(st.store[cell], path, v)
        st.store[cell] = v

    def deref(self, st, v):
        """value behind any reference"""
        while isinstance(v, Ref):
            v = self.read(st, v)
        return v

    def scalar(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Opaque):
            return T.opaque(v.why)
        if isinstance(v, Agg) and v.name.endswith("Wrapping"):
            return v.fields[0]
        raise Undecided("scalar expected, got %s" % type(v).__name__)

    def operand(self, fr, op, st):
        if "cp" in op or "mv" in op:
            cell, path = self.resolve(fr, op.get("cp") or op.get("mv"), st)
            v = self.read_cell(st, cell, path)
            if isinstance(v, Poly) and T.CTX.gen:
                v = T.renorm(v)
            return v
        if "const" in op:
            return self.constant(fr, op["const"], st)
        raise Undecided("operand")

    def constant(self, fr, c, st):
        if "c" in c:
            r = dict(c["c"])
            r["args"] = subst_ty(r.get("args", []), fr.env)
            if "implargs" in r:
                r["implargs"] = subst_ty(r["implargs"], fr.env)
            return Fn(r)
        if "cparam" in c:
            v = fr.env.get(c["cparam"])
            return self.cval(v)
        ty = c["ty"]
        if "v" in c:
            if isinstance(ty, str) and ty in FLOATS:
                return float_const(c["v"])
            return T.const(int(c["v"]))
        if isinstance(ty, dict) and "closure" in ty:
            return Closure(ty["closure"], (), fr.env)
        if isinstance(ty, dict) and "tup" in ty and not ty["tup"]:
            return V.UNIT
        if "promoted" in c:
            owner = self.d.bodies.get(c["def"])
            if owner is None:
                return Opaque("promoted constant")
            pb = owner["promoted"][c["promoted"]]
            s2 = State(dict(st.store), st.path)
            v = self.run_body(pb, [], s2, fr.env)
            return self.deref(s2, v)
        if isinstance(ty, dict) and ty.get("ref") == "str":
            return Str(c.get("dbg", ""))
        if "def" in c and c["def"] in self.d.bodies:
            s2 = State(dict(st.store), st.path)
            v = self.run_body(self.d.bodies[c["def"]], [], s2, {})
            return self.deref(s2, v)
        if isinstance(ty, dict) and "adt" in ty and ty["adt"] == V.OPT and "None" in c.get("dbg", ""):
            return V.NONE
        return Opaque("constant %s" % c.get("dbg", ""))

    def cval(self, v):
        if isinstance(v, dict) and "const" in v:
            v = v["const"]
        if isinstance(v, Poly):
            return v
        if isinstance(v, int):
            return T.const(v)
        raise Undecided("constant parameter")

    # ------------------------------------------------------------ blocks

    def exec_block(self, fr, bb, st):
        with T.assume(*st.path):
            b = fr.body["blocks"][bb]
            for s in b["s"]:
                if s[0] == "=":
                    cell, path = self.resolve(fr, s[1], st)
                    v = self.rvalue(fr, s[2], st)
                    self.write(st, cell, path, v)
                elif s[0] == "dead":
                    st.store.pop((fr.fid, s[1]), None)
                elif s[0] == "setdiscr":
                    raise Undecided("set discriminant")
                elif s[0] == "intrinsic":
                    pass
            t = b["t"]
            k = t[0]
            if k == "goto":
                return [(t[1], st)]
            if k == "drop":
                return [(t[1], st)]
            if k == "return":
                return [("ret", st)]
            if k in ("unreachable", "unwind"):
                return []
            if k == "assert":
                c = self.boolean(self.operand(fr, t[1], st))
                if not t[2]:
                    c = ONE - c
                if c is ONE:
                    return [(t[3], st)]
                self.panics.append((st.path, ONE - c, fr.body["path"], t[5], t[4]))
                if c.is_zero():
                    return []
                return [(t[3], State(st.store, st.path + (c,)))]
            if k == "switch":
                return self.switch(fr, t, st)
            if k == "call":
                args = [self.operand(fr, a, st) for a in t[2]]
                f = t[1]
                self.sites += 1
                if "ptr" in f:
                    fv = self.operand(fr, f["ptr"], st)
                    try:
                        v = self.call_value(fv, args, st)
                    except Diverge:
                        return []
                else:
                    f2 = f
                    if fr.env:
                        f2 = dict(f)
                        f2["args"] = subst_ty(f.get("args", []), fr.env)
                        if "implargs" in f:
                            f2["implargs"] = subst_ty(f["implargs"], fr.env)
                        if "self" in f:
                            f2["self"] = subst_ty(f["self"], fr.env)
                    if t[4] is None:
                        self.panics.append((st.path, ONE, fr.body["path"], t[5], f.get("fn")))
                        return []
                    try:
                        v = self.invoke(f2, args, st, t[5])
                    except Diverge:
                        return []
                cell, path = self.resolve(fr, t[3], st)
                self.write(st, cell, path, v)
                return [(t[4], st)]
            raise Undecided("terminator %s" % k)

    def boolean(self, v):
        if isinstance(v, Opaque):
            raise Undecided("branch on: " + v.why)
        v = T.renorm(self.scalar(v))
        if T.is_boolp(v):
            return v
        return ONE - T.eqz(v)

    def switch(self, fr, t, st):
        v = self.operand(fr, t[1], st)
        if isinstance(v, Opaque):
            raise Undecided("branch on: " + v.why)
        outs = []
        rest = ONE
        for val, bb in t[2]:
            if isinstance(v, Discr):
                c = T.renorm(v.e.guard(val)) if isinstance(v.e, Enum) else None
                if c is None:
                    raise Undecided("discriminant")
            elif t[4] == "bool" or (T.is_boolp(v) and val in (0, 1) and not v.is_const()):
                c = v if val else ONE - v
            else:
                c = T.eqz(v - val)
            c = T.renorm(c)
            outs.append((bb, c))
            rest = rest - c
        rest = T.renorm(rest)
        if t[3] is not None:
            outs.append((t[3], rest))
        outs = [(b, c) for b, c in outs if not c.is_zero()]
        # merge equal targets
        by = {}
        for b, c in outs:
            by[b] = by[b] + c if b in by else c
        outs = list(by.items())
        if any(T.opaques(c) for _, c in outs) and len(outs) > 1:
            raise Undecided("branch on: %s" % sorted(set().union(*[T.opaques(c) for _, c in outs]))[0])
        res = []
        for i, (b, c) in enumerate(outs):
            s = st if i == len(outs) - 1 else st.clone()
            if c is not ONE:
                s = State(s.store, st.path + (c,))
            res.append((b, s))
        return res

    # ------------------------------------------------------------ rvalues

    def rvalue(self, fr, r, st):
        k = r[0]
        if k == "use":
            return self.operand(fr, r[1], st)
        if k == "ref":
            cell, path = self.resolve(fr, r[1], st)
            if r[2]:
                if cell not in st.store and not path:
                    return Ref(cell, path)
                return Ref(cell, path)
            return self.read_cell(st, cell, path)
        if k == "rawptr":
            cell, path = self.resolve(fr, r[1], st)
            v = self.read_cell(st, cell, path)
            if V.is_seq(v):
                return v            # slice length read through a raw pointer
            return v
        if k == "repeat":
            n = r[2]
            if isinstance(n, dict):
                n = self.cval(fr.env.get(n.get("param")))
            elif isinstance(n, int):
                n = T.const(n)
            else:
                raise Undecided("array length")
            x = self.operand(fr, r[1], st)
            return V.gen(n, lambda i: x, "arr")
        if k == "array":
            return V.lit([self.operand(fr, x, st) for x in r[1]], "arr")
        if k == "tuple":
            return V.tup(*[self.operand(fr, x, st) for x in r[1]])
        if k == "adt":
            ops = [self.operand(fr, x, st) for x in r[1]]
            return self.mk_adt(r[2], r[3], ops, subst_ty(r[4], fr.env))
        if k == "closure":
            return Closure(r[2], [self.operand(fr, x, st) for x in r[1]], fr.env)
        if k == "discr":
            cell, path = self.resolve(fr, r[1], st)
            v = self.read_cell(st, cell, path)
            if isinstance(v, Enum):
                return Discr(v)
            if isinstance(v, Opaque):
                return v
            raise Undecided("discriminant of %s" % type(v).__name__)
        if k == "bin":
            a = self.operand(fr, r[2], st)
            b = self.operand(fr, r[3], st)
            return self.binop(r[1], a, b, self.op_ty(fr, r[2]))
        if k == "un":
            a = self.operand(fr, r[2], st)
            if r[1] == "Neg":
                return -self.scalar(a)
            if r[1] == "Not":
                ty = self.op_ty(fr, r[2])
                a = self.scalar(a)
                if ty == "bool":
                    return ONE - a
                if isinstance(ty, str) and ty in INT_BITS:
                    bits, sg = INT_BITS[ty]
                    return -a - 1 if sg else T.const((1 << bits) - 1) - a
                raise Undecided("not")
            if r[1] == "PtrMetadata":
                n = V.seq_len(self.deref(st, a))
                if n is INF:
                    raise Undecided("length")
                return n
            raise Undecided("unary %s" % r[1])
        if k == "cast":
            return self.cast(fr, r, st)
        if k == "len":
            cell, path = self.resolve(fr, r[1], st)
            return V.seq_len(self.read_cell(st, cell, path))
        raise Undecided("rvalue %s" % k)

    def mk_adt(self, path, variant, ops, targs=None):
        if path.endswith("Complex") and len(ops) == 2:
            return V.cplx(*ops)
        adt = self.d.adts.get(path)
        if adt is not None:
            if len(adt["variants"]) == 1:
                return Agg(path, ops, targs)
            return Enum(path, [(variant, ONE, tuple(ops))])
        if path in ("std::option::Option", "std::result::Result", "std::ops::ControlFlow", "std::cmp::Ordering"):
            return Enum(path, [(variant, ONE, tuple(ops))])
        if path in ("std::ops::Range", "std::ops::RangeFrom", "std::ops::RangeTo", "std::ops::RangeInclusive",
                    "std::ops::RangeFull", "std::ops::RangeToInclusive"):
            return Agg(path, ops)
        return Agg(path, ops, targs)

    def op_ty(self, fr, op):
        if "const" in op:
            return op["const"]["ty"]
        p = op.get("cp") or op.get("mv")
        if p and not p[1]:
            return subst_ty(fr.body["locals"][p[0]], fr.env)
        if p:
            # projected: try the declared field type of a local struct
            ty = fr.body["locals"][p[0]]
            for s in p[1]:
                if s == "*":
                    if isinstance(ty, dict) and "ref" in ty:
                        ty = ty["ref"]
                elif isinstance(s, dict) and "f" in s:
                    if isinstance(ty, dict) and "adt" in ty and ty["adt"] in self.d.adts:
                        vs = self.d.adts[ty["adt"]]["variants"]
                        if len(vs) == 1 and s["f"] < len(vs[0]["fields"]):
                            ty = vs[0]["fields"][s["f"]][1]
                            continue
                        return None
                    elif isinstance(ty, dict) and "tup" in ty:
                        ty = ty["tup"][s["f"]]
                    else:
                        return None
                elif isinstance(s, dict) and ("ix" in s or "cix" in s):
                    if isinstance(ty, dict) and "arr" in ty:
                        ty = ty["arr"]
                    elif isinstance(ty, dict) and "slice" in ty:
                        ty = ty["slice"]
                    else:
                        return None
                else:
                    return None
            return subst_ty(ty, fr.env)
        return None

    def binop(self, op, a, b, ty=None):
        if op in ("Eq", "Ne") and isinstance(a, (Discr,)) or isinstance(b, Discr):
            raise Undecided("discriminant compare")
        if op.endswith("Unchecked"):
            op = op[:-9]
        wo = op.endswith("WithOverflow")
        if wo:
            op = op[:-12]
        if isinstance(a, Enum) and isinstance(b, Enum):
            raise Undecided("enum compare")
        x, y = self.scalar(a), self.scalar(b)
        r = self.arith(op, x, y, ty)
        if ty == "f32" and op in ("Add", "Sub", "Mul", "Div", "Rem"):
            r = T.f32(r)
        return V.tup(r, ZERO) if wo else r

    def arith(self, op, x, y, ty):
        isf = isinstance(ty, str) and ty in FLOATS
        if ty is None:
            isf = not (T.is_int(x) and T.is_int(y))
        if op == "Add":
            return x + y
        if op == "Sub":
            return x - y
        if op == "Mul":
            return x * y
        if op == "Div":
            if isf:
                if T.renorm(y).is_zero():
                    return T.app("div0", x)
                return T.div(x, y)
            return self.int_div(x, y)
        if op == "Rem":
            if isf:
                return x - y * T.apoly(T.raw_atom("ftrunc", (T.div(x, y),)))
            return x - y * self.int_div(x, y)
        if op == "Eq":
            return T.eqz(x - y) if ty != "bool" else ONE - T.bxor(x, y)
        if op == "Ne":
            return ONE - T.eqz(x - y) if ty != "bool" else T.bxor(x, y)
        if op in ("Lt", "Le", "Gt", "Ge"):
            if op in ("Gt", "Le"):
                x, y = y, x
            # now Lt: x<y  (Gt swapped), Ge: x>=y (Le swapped)
            if isf and not (T.is_int(x) and T.is_int(y)):
                c = T.pos(y - x)
            else:
                c = T.ge0(y - x - 1)
            return c if op in ("Lt", "Gt") else ONE - c
        if op == "BitXor":
            if ty == "bool" or (T.is_boolp(x) and T.is_boolp(y)):
                return T.bxor(x, y)
            return x + y - self.bitand(x, y).scale(2)
        if op == "BitAnd":
            if ty == "bool" or (T.is_boolp(x) and T.is_boolp(y)):
                return x * y
            return self.bitand(x, y)
        if op == "BitOr":
            if ty == "bool" or (T.is_boolp(x) and T.is_boolp(y)):
                return T.bor(x, y)
            return self.M.join_bits(x + y - self.bitand(x, y))
        if op in ("Shl", "Shr"):
            n = const_int(y)
            if n is not None:
                p = T.const(1 << n)
            else:
                p = T.powf(T.const(2), y)
            if op == "Shl":
                r = x * p
                if isinstance(ty, str) and ty in INT_BITS and INT_BITS[ty][0] < 64:
                    r = T.wrap(r, *INT_BITS[ty])
                return r
            return self.int_div(x, p)
        if op == "Cmp":
            lt = T.pos(y - x) if isf else T.ge0(y - x - 1)
            gt = T.pos(x - y) if isf else T.ge0(x - y - 1)
            return Enum("std::cmp::Ordering", [(255, lt, ()), (0, ONE - lt - gt, ()), (1, gt, ())])
        raise Undecided("binary %s" % op)

    def int_div(self, x, y):
        if T.renorm(y).is_zero():
            raise Undecided("division by zero")
        if not T.nonneg(x) and not x.is_const() and False:
            raise Undecided("signed division")
        return T.idiv(x, y)

    def bitand(self, x, y):
        return self.M.bitand(x, y)

    def cast(self, fr, r, st):
        kind, opd, ty = r[1], r[2], r[3]
        v = self.operand(fr, opd, st)
        if kind in ("IntToInt",):
            if isinstance(v, Discr):
                raise Undecided("discriminant cast")
            x = self.scalar(v)
            if isinstance(ty, str) and ty in INT_BITS:
                bits, sg = INT_BITS[ty]
                src = self.op_ty(fr, opd)
                if isinstance(src, str) and src in INT_BITS:
                    sb, ss = INT_BITS[src]
                    if ss == sg and sb <= bits:
                        return x
                    if bits >= 64 and T.nonneg(x):
                        return x
                    if bits >= 64 and not sg and ss:
                        return T.wrap(x, bits, sg)
                    if bits >= 64:
                        return x
                if src == "bool":
                    return x
                return T.wrap(x, bits, sg)
            return x
        if kind == "IntToFloat":
            x = self.scalar(v)
            return T.f32(x) if ty == "f32" else x
        if kind == "FloatToFloat":
            x = self.scalar(v)
            return T.f32(x) if ty == "f32" else x
        if kind == "FloatToInt":
            x = T.renorm(self.scalar(v))
            if isinstance(ty, str) and ty in INT_BITS and not INT_BITS[ty][1]:
                if T.nonneg(x):
                    return T.trunc(x)
                c = T.pos(x)
                if c.is_zero():
                    return ZERO
                if c is ONE:
                    return T.trunc(x)
                with T.assume(c):
                    y = T.trunc(x)
                return c * y
            return T.trunc(x)
        if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
            return v
        if "PointerCoercion" in kind or kind.startswith("Ptr") or "Transmute" in kind or "PtrToPtr" in kind:
            if "Transmute" in kind:
                return Opaque("transmute")
            return v
        return Opaque("cast " + kind)

    # ------------------------------------------------------------ calls

    def run_body(self, body, args, st, env):
        if self.depth > 60:
            raise Undecided("call depth")
        self.depth += 1
        self.fnstack.append(body.get("path") or "const")
        try:
            fid = new_id("f")
            fr = Frame(body, fid, env)
            self.called.add(body.get("key") or "const")
            if body.get("spread") is not None:
                pass
            for i, a in enumerate(args):
                st.store[(fid, i + 1)] = a
            blocks = frozenset(i for i, b in enumerate(body["blocks"]) if not b["cleanup"])
            base = st.path
            exits = self.run_region(fr, blocks, None, 0, State(st.store, st.path))
            rets = exits.get("ret")
            if not rets:
                raise Diverge()
            s = merge_all(rets)
            v = s.store.get((fid, 0), V.UNIT)
            for c in [c for c in s.store if c[0] == fid]:
                del s.store[c]
            st.store = s.store
            st.path = s.path
            assert s.path[:len(base)] == base
            return v
        finally:
            self.depth -= 1
            self.fnstack.pop()

    def body_env(self, body, args):
        env = {}
        for n, a in zip(body.get("allgenerics") or [], args or []):
            env[n] = a["const"] if isinstance(a, dict) and "const" in a else a
        return env

    def invoke(self, f, args, st, span=None):
        if "ctor" in f:
            return self.mk_adt(f["ctor"], f["variant"], args)
        key = f.get("implkey") or f["key"]
        body = self.d.bodies.get(key)
        if "implkey" not in f and f.get("trait") and args:
            # dispatch on the receiver
            r = self.dispatch(f, args, st)
            if r is not None:
                b2, env = r
                return self.run_body(b2, args, st, env)
        if body is not None and body.get("path") in self.stubs:
            args = [self.deref(st, a) for a in args]
            self.stubbed.append((body["path"], args))
            return self.stubs[body["path"]](self, st, args)
        if body is not None and body.get("kind") != "Closure":
            env = self.body_env(body, f.get("implargs") if "implkey" in f else f.get("args"))
            if body.get("impltrait") and "implkey" not in f:
                pass
            return self.run_body(body, args, st, env)
        if self.demand is not None:
            r = self.demand.hook(self, st, f, args)
            if r is not NotImplemented:
                return r
        m = self.models.get(f.get("impl")) or self.models.get(f["fn"])
        if m is None:
            m = self.fallback(self, f)
        if m is not None:
            try:
                return m(self, st, args, f)
            except Undecided as e:
                if self.trace:
                    print("undecided in", f["fn"], e, span)
                raise
        self.unknown[f["fn"]] = self.unknown.get(f["fn"], 0) + 1
        return self.havoc_call(f["fn"], args, st)

    def havoc_call(self, name, args, st):
        def hav(v):
            if isinstance(v, Ref):
                st.store[v.cell] = Opaque("modified by " + name)
            elif isinstance(v, Closure):
                for c in v.caps:
                    hav(c)
            elif isinstance(v, Agg):
                for c in v.fields:
                    hav(c)
        for a in args:
            hav(a)
        return Opaque("call " + name)

    def dispatch(self, f, args, st):
        tr = f["trait"]
        a0 = args[0]
        v = a0
        while isinstance(v, Ref):
            v = self.read(st, v)
        nm = v.name if isinstance(v, Agg) else (v.adt if isinstance(v, Enum) else None)
        if nm is None:
            return None
        im = self.d.impl_of.get((tr, nm))
        if im is None:
            return None
        for n, k in im["items"]:
            if n == f.get("name") and k in self.d.bodies:
                env = {}
                if isinstance(v, Agg) and v.targs and isinstance(im["self"], dict):
                    bind_ty(im["self"].get("args", []), v.targs, env)
                return self.d.bodies[k], env
        return None

    def call_value(self, fv, args, st):
        """call a closure / fn item with already-unpacked args"""
        fv = self.deref(st, fv) if isinstance(fv, Ref) and not isinstance(self.deref(st, fv), Closure) else fv
        ref = None
        if isinstance(fv, Ref):
            ref = fv
            fv = self.deref(st, fv)
        if isinstance(fv, Fn):
            return self.invoke(fv.ref, list(args), st)
        if isinstance(fv, Closure):
            body = self.d.bodies.get(fv.key)
            if body is None:
                return Opaque("closure body")
            ty1 = body["locals"][1]
            n = body["argc"]
            args = list(args)
            if len(args) != n - 1:
                if n - 1 == 1:
                    args = [V.tup(*args)]
                else:
                    raise Undecided("closure arity")
            if isinstance(ty1, dict) and ty1.get("ref") is not None and ty1.get("mut"):
                if ref is None:
                    cell = (new_id("c"), 0)
                    st.store[cell] = fv
                    ref = Ref(cell)
                    try:
                        v = self.run_body(body, [ref] + args, st, self.cenv(fv))
                        if st.store[cell] != fv:
                            self.effects.append("closure state")
                            raise Undecided("stateful closure called through a value")
                    finally:
                        st.store.pop(cell, None)
                    return v
                return self.run_body(body, [ref] + args, st, self.cenv(fv))
            return self.run_body(body, [fv] + args, st, self.cenv(fv))
        if isinstance(fv, Opaque):
            return fv
        raise Undecided("call of %s" % type(fv).__name__)

    def cenv(self, clo):
        return clo.env or {}

    def closure_is_mut(self, fv):
        if not isinstance(fv, Closure):
            return False
        body = self.d.bodies.get(fv.key)
        if body is None:
            return False
        ty1 = body["locals"][1]
        return isinstance(ty1, dict) and ty1.get("ref") is not None and bool(ty1.get("mut"))

    # ------------------------------------------------------------ entry

    def call(self, path, args, targs=None, st=None):
        body = self.d.by_path.get(path)
        if body is None:
            raise KeyError(path)
        if st is None:
            st = State({"entropy": ZERO}, ())
        env = targs or {}
        with T.assume(*st.path):
            return self.run_body(body, args, st, env), st
