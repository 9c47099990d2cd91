"""Summaries of loops, local iterators and stateful closures by solving their state recurrences."""
import math
from fractions import Fraction
from . import term as T
from . import val as V
from .term import Poly, Undecided, ZERO, ONE
from .val import Agg, Enum, Seq, Seg, Stream, SymSeq, OpSeq, Closure, Fn, Ref, Sym, Str, Discr, Opaque, INF


class NeedPeel(Exception):
    pass


class NoExit(Exception):
    pass


class Step:
    """result of one symbolic step"""
    __slots__ = ("exits", "back", "cond", "item")

    def __init__(self, exits, back, cond, item=None):
        self.exits = exits      # [(cond, tag, State)]
        self.back = back        # State or None
        self.cond = cond        # condition of the back edge
        self.item = item


# ---------------------------------------------------------------- problems

class CfgProblem:
    unroll_first = False

    def __init__(self, I, fr, comp, h, base):
        self.I, self.fr, self.comp, self.h, self.base = I, fr, comp, h, base
        self.limit = None

    def step(self, store, path, k):
        from .interp import State, merge_all, prod
        st = State(dict(store), path)
        ex = self.I.run_region(self.fr, self.comp, self.h, self.h, st)
        n = len(path)
        exits = []
        back = None
        bc = ZERO
        for t, ss in ex.items():
            if t == self.h:
                with T.assume(*path):
                    back = merge_all(ss)
                    bc = prod(back.path[n:])
            else:
                for s in ss:
                    with T.assume(*path):
                        exits.append((prod(s.path[n:]), t, s))
        return Step(exits, back, bc)


class NextProblem:
    """repeated calls of an iterator's next(); the state is one cell"""

    def __init__(self, I, cell, callnext):
        self.I, self.cell, self.callnext = I, cell, callnext
        self.limit = None

    def step(self, store, path, k):
        from .interp import State
        st = State(dict(store), path)
        with T.assume(*path):
            r = self.callnext(st, Ref(self.cell))
        if isinstance(r, Opaque):
            raise Undecided(r.why)
        if not isinstance(r, Enum):
            raise Undecided("next() result")
        g = r.guard(1)
        f = r.fields(1)
        exits = []
        with T.assume(*path):
            g = T.renorm(g)
        if g is not ONE:
            exits.append((ONE - g, "none", st))
        if g.is_zero():
            return Step(exits, None, ZERO)
        return Step(exits, st, g, f[0])


class MapProblem:
    """fn applied to elements base+0, base+1, ... ; state = cells written by fn"""

    def __init__(self, I, call, limit):
        self.I, self.call, self.limit = I, call, limit

    def step(self, store, path, k):
        from .interp import State
        st = State(dict(store), path)
        with T.assume(*path):
            y = self.call(st, k)
        return Step([], st, ONE, y)


# ---------------------------------------------------------------- symbolic states

_sym = [0]


class SymRec:
    __slots__ = ("name", "kind", "init", "sym")

    def __init__(self, name, kind, init, sym):
        self.name, self.kind, self.init, self.sym = name, kind, init, sym


class UNDEF:
    pass


def undef(v):
    return isinstance(v, Opaque) and v.why == "undefined"


def shape_of(v):
    if isinstance(v, Poly):
        if T.is_boolp(v):
            return "bool" if v.bool_atoms() or True else "int"
        if T.is_int(v):
            return "int"
        return "real"
    return v


class Relator:
    def __init__(self, key):
        self.key = key
        self.syms = {}      # name -> SymRec
        self.byatom = {}
        self.changed = False
        self.upd = {}
        self.dead = set()

    def new_sym(self, name, v0, U):
        _sym[0] += 1
        nm = "m%d" % _sym[0]
        if isinstance(v0, (Seq, SymSeq, OpSeq)):
            try:
                l0, l1 = V.seq_len(v0), V.seq_len(U)
            except Undecided:
                l0 = None
            if l0 is not None and l0 is not INF and l1 is not INF and (l0 - l1).is_zero():
                ln = l0
            elif l0 is None:
                return Opaque("sequence of unknown length")
            elif l0 is INF or l1 is INF:
                return Opaque("infinite loop-carried sequence")
            else:
                ln = T.var(nm + ".len", lo=0)
                self.byatom[T.the_atom(ln).id] = name
            el = sample_elem(v0) if sample_elem(v0) is not None else sample_elem(U)
            sh = None if el is None else shape_of(el)
            s = SymSeq(nm, ln, sh, getattr(v0, "kind", "vec"))
            self.syms[name] = SymRec(name, "seq", v0, s)
        else:
            if undef(v0):
                isint = T.is_int(U)
                isb = False
            else:
                isb = T.is_boolp(v0) and T.is_boolp(U) and bool(v0.bool_atoms() or U.bool_atoms())
                isint = T.is_int(v0) and T.is_int(U)
            s = T.var(nm, isint=isint, isbool=isb, nonneg=isint and not isb and
                      (not undef(v0) and T.nonneg(v0)) and _keeps_nonneg(v0, U))
            self.byatom[T.the_atom(s).id] = name
            self.syms[name] = SymRec(name, "bool" if isb else ("int" if isint else "real"), v0, s)
        self.changed = True
        return s

    def relate(self, M, U, V0, name):
        """generalise M so that it also covers U (value after one step)"""
        if M is U:
            if name in self.syms:
                self.upd[name] = U
            return M
        if name in self.syms:
            self.upd[name] = U
            return M
        if isinstance(M, Opaque):
            return M
        if isinstance(M, Poly) and isinstance(U, Poly):
            if undef(V0):
                return self.new_sym(name, V0, U)
            return self.new_sym(name, M, U)
        if M == U and not self.has_sym(name):
            return M
        if isinstance(U, Opaque):
            self.changed = True
            return U
        if isinstance(M, Enum) and isinstance(U, Enum) and M.adt == U.adt:
            ids = sorted({i for i, _, _ in M.vs} | {i for i, _, _ in U.vs})
            if len(ids) > 2:
                self.changed = True
                return Opaque("enum state")
            vs = []
            if len(ids) == 1:
                g = {ids[0]: ONE}
            else:
                hi = ids[1]
                g1 = self.relate(M.guard(hi), U.guard(hi), V0.guard(hi) if isinstance(V0, Enum) else V0,
                                 name + ("g", hi))
                if not isinstance(g1, Poly):
                    return Opaque("enum guard")
                g = {ids[0]: ONE - g1, hi: g1}
            for i in ids:
                fm, fu = M.fields(i), U.fields(i)
                f0 = V0.fields(i) if isinstance(V0, Enum) else None
                if fm is None:
                    fm = tuple(as_undef(x) for x in fu)
                if fu is None:
                    vs.append((i, g[i], fm))
                    for j in range(len(fm)):
                        self.keep(name + ("vf", i, j), fm[j])
                    continue
                if f0 is None:
                    f0 = tuple(Opaque("undefined") for _ in fm)
                vs.append((i, g[i], tuple(self.relate_undef(a, b, c, name + ("vf", i, j))
                                          for j, (a, b, c) in enumerate(zip(fm, fu, f0)))))
            return Enum(M.adt, vs)
        if isinstance(M, Agg) and isinstance(U, Agg) and M.name == U.name and len(M.fields) == len(U.fields):
            return Agg(M.name, [self.relate_undef(a, b, child(V0, i), name + ("f", i))
                                for i, (a, b) in enumerate(zip(M.fields, U.fields))], M.targs)
        if isinstance(M, Closure) and isinstance(U, Closure) and M.key == U.key:
            return Closure(M.key, [self.relate_undef(a, b, child(V0, i), name + ("f", i))
                                   for i, (a, b) in enumerate(zip(M.caps, U.caps))], M.env)
        if isinstance(M, Stream) and isinstance(U, Stream):
            if M.seq == U.seq:
                p = self.relate(M.pos, U.pos, V0.pos if isinstance(V0, Stream) else V0, name + ("pos",))
                return Stream(M.seq, p)
            d = shift_of(M.seq, U.seq)
            if d is not None:
                p = self.relate(M.pos, U.pos + d, V0.pos if isinstance(V0, Stream) else V0, name + ("pos",))
                return Stream(M.seq, p)
            self.changed = True
            return Opaque("stream state")
        if isinstance(M, Sym) and isinstance(U, Sym) and M.name == U.name and len(M.args) == len(U.args):
            args = []
            for i, (a, b) in enumerate(zip(M.args, U.args)):
                if isinstance(a, Poly) and isinstance(b, Poly):
                    args.append(self.relate(a, b, child(V0, i), name + ("f", i)))
                elif a == b:
                    args.append(a)
                elif isinstance(a, (Poly, V.Val)) and isinstance(b, (Poly, V.Val)):
                    args.append(self.relate(a, b, child(V0, i), name + ("f", i)))
                else:
                    self.changed = True
                    return Opaque("state of %s" % M.name)
            return Sym(M.name, *args)
        if isinstance(M, Ref) and isinstance(U, Ref) and M.cell == U.cell and len(M.path) == len(U.path) and \
                [p[0] for p in M.path] == [p[0] for p in U.path]:
            # the position of a reference is overwritten before use in practice: widen
            if M.path == U.path:
                return M
            self.changed = True
            return Opaque("reference state")
        if V.is_seq(M) and V.is_seq(U):
            lm = lit_of(M)
            if lm is not None and len(lm) <= 16 and elementwise(M, U, len(lm)):
                lu = [V.seq_at(U, T.const(i)) for i in range(len(lm))]
                l0 = lit_of(V0) if V.is_seq(V0) else None
                return V.lit([self.relate(a, b, l0[i] if l0 else a, name + ("ix", i))
                              for i, (a, b) in enumerate(zip(lm, lu))], getattr(M, "kind", "vec"))
            return self.new_sym(name, M, U)
        self.changed = True
        return Opaque("state shape")

    def relate_undef(self, a, b, v0, name):
        return self.relate(a, b, v0, name)

    def keep(self, name, v):
        if name in self.syms:
            self.upd[name] = v
            return
        if isinstance(v, Agg):
            for i, x in enumerate(v.fields):
                self.keep(name + ("f", i), x)
        elif isinstance(v, Seq) and lit_of(v) is not None:
            for i, x in enumerate(lit_of(v)):
                self.keep(name + ("ix", i), x)

    def has_sym(self, name):
        n = len(name)
        return any(k[:n] == name for k in self.syms)


def as_undef(x):
    """same structure with undefined leaves"""
    if isinstance(x, Agg):
        return Agg(x.name, [as_undef(f) for f in x.fields], x.targs)
    if isinstance(x, Poly):
        return x
    return x


def child(v, i):
    if isinstance(v, Agg):
        return v.fields[i] if i < len(v.fields) else Opaque("undefined")
    if isinstance(v, Closure):
        return v.caps[i]
    if isinstance(v, Sym):
        return v.args[i]
    return Opaque("undefined")


def sample_elem(v):
    try:
        if isinstance(v, Seq):
            if not v.segs:
                return None
            return v.segs[0].t
        if isinstance(v, SymSeq):
            return None if v.shape is None else V.seq_at(v, ZERO)
        if isinstance(v, OpSeq):
            if v.op in ("push", "pushf"):
                return v.args[0]
            if v.op == "set":
                return v.args[1]
            if v.op == "ext":
                return sample_elem(v.args[0])
            return sample_elem(v.base)
    except Undecided:
        return None


def lit_of(v):
    return v.lit() if isinstance(v, Seq) else None


def elementwise(M, U, n):
    """U has the same literal length and only differs at constant positions"""
    if isinstance(U, Seq):
        l = U.lit()
        return l is not None and len(l) == n
    while isinstance(U, OpSeq):
        if U.op != "set":
            return False
        U = U.base
    return U == M


def shift_of(a, b):
    """b == a without its first d elements -> d"""
    if not isinstance(a, Seq) or not isinstance(b, Seq):
        return None
    la, lb = a.length(), b.length()
    if la is INF or lb is INF:
        return None
    d = la - lb
    try:
        if V.drop(a, d) == b:
            return d
    except Undecided:
        pass
    return None


def _keeps_nonneg(v0, U):
    return True


def inst(v, smap, qmap):
    """replace solved symbols: smap atom id -> Poly, qmap sid -> Seq"""
    if isinstance(v, Poly):
        return T.subst(v, smap) if smap else v
    if isinstance(v, SymSeq):
        if v.sid in qmap:
            return qmap[v.sid]
        return v.rebuild(tuple(inst(k, smap, qmap) for k in v.kids())) if v.kids() else v
    if isinstance(v, Seq):
        segs = []
        ch = False
        for s in v.segs:
            ln = s.len if s.len is INF else inst(s.len, smap, qmap)
            t = inst(s.t, smap, qmap)
            ch = ch or ln is not s.len or t is not s.t
            segs.append(Seg(ln, s.v, t))
        return Seq(segs, v.kind) if ch else v
    if isinstance(v, V.Val):
        ks = v.kids()
        n = tuple(inst(k, smap, qmap) for k in ks)
        if all(a is b for a, b in zip(ks, n)):
            return v
        return v.rebuild(n)
    return v


def mentions(x, atoms, sids):
    """does term/value x mention any unsolved symbol"""
    for aid in T.atoms_rec(x):
        if aid in atoms:
            return True
        A = T.ATOMS[aid]
        if A.kind == "elem":
            s = A.args[0]
            if s in sids or (isinstance(s, str) and s.split(".")[0] in sids) or \
                    (isinstance(s, tuple) and s and str(s[0]).split(".")[0] in sids):
                return True
    return has_symseq(x, sids)


def has_symseq(x, sids):
    if isinstance(x, SymSeq):
        s = x.sid
        while isinstance(s, tuple):
            s = s[0]
        return s.split(".")[0] in sids or s in sids
    if isinstance(x, V.Val):
        return any(has_symseq(k, sids) for k in x.kids() if isinstance(k, V.Val))
    return False


def _const_in(x, aid):
    return aid not in T.atoms_rec(x)


# ---------------------------------------------------------------- recurrence rules

class Rec:
    """one unsolved symbol's recurrence U(mu, k)"""

    def __init__(self, k, unsolved_atoms, sids):
        self.k = k
        self.kid = T.the_atom(k).id
        self.un = unsolved_atoms
        self.sids = sids
        self.want_peel = False
        self.own = None

    def free(self, x):
        return not mentions(x, self.un, self.sids) and (self.own is None or self.own not in T.atoms_rec(x))

    def sumk(self, D):
        j = T.fresh("j", lo=0, hi=self.k - 1)
        return T.msum(self.k, j, T.subst(D, {self.kid: j}))

    def at(self, x, kk):
        return T.vsubst(x, {self.kid: kk})

    def unify(self, f, init):
        """closed form equal to init at k=0 and f(k) for k>=1; None if it needs a split"""
        try:
            f0 = self.at(f, ZERO)
        except Undecided:
            return None
        if undef(init):
            return f
        if f0 == init:
            return f
        return None

    def scalar(self, rec, U):
        k = self.k
        mu = rec.sym
        ma = T.the_atom(mu)
        self.own = ma.id
        init = rec.init
        if U is mu:
            return init if not undef(init) else None
        if rec.kind == "bool":
            return self.boolean(rec, U)
        if ma.id not in T.atoms_rec(U):
            if not self.free(U):
                return None
            f = self.at(U, k - 1)
            r = self.unify(f, init)
            if r is None:
                self.want_peel = True
            return r
        if undef(init):
            # latched value with undefined start
            A, C = self.linear(U, ma)
            if A is not None and self.free(A) and self.free(C) and T.is_boolp(ONE - A):
                return self.latch(ONE - A, C, init)
            return None
        D = U - mu
        if self.free(D):
            return init + self.sumk(D)
        A, C = self.linear(U, ma)
        if A is not None and self.free(A) and self.free(C):
            if T.is_boolp(A):
                return self.latch(ONE - A, C, init)
            if C.is_zero() and self.kid not in T.atoms_rec(A):
                if init.is_zero():
                    return ZERO
                return init * T.powf(A, k)
        r = self.cyclic(rec, U, ma)
        if r is not None:
            return r
        # x' = (x + d) mod n
        for aid in U.atoms():
            B = T.ATOMS[aid]
            if B.kind == "idiv" and ma.id in T.atoms_rec(B.args[0]) and ma.id not in T.atoms_rec(B.args[1]):
                n = B.args[1]
                d = B.args[0] - mu
                if self.free(d) and self.free(n) and (U - (mu + d - n * T.apoly(B))).is_zero() and \
                        self.kid not in T.atoms_rec(d) and T.nonneg(init) and T.nonneg(n - 1 - init):
                    return T.rem(init + k * d, n)
        return None

    def linear(self, U, ma):
        ab = T.coeff_of(U, ma.id)
        if ab is None:
            return None, None
        return ab

    def events(self, R):
        """R(k) bool -> ('cyc', m, off) when R holds exactly at k = m*q + m-1-off; ('at', root) single index;
        ('from', s) for all k >= s; ('until', s) for k < s"""
        a = T._lit(R)
        if a is None:
            return None
        A, val = a
        if self.kid not in T.atoms_rec(A):
            return None
        if A.kind == "eq":
            p = A.args[0]
            ids = [T.ATOMS[i] for i in p.atoms() if self.kid in T.ATOMS[i].fv and T.ATOMS[i].kind == "idiv"]
            if not ids and val:
                ab = T.coeff_of(p, self.kid)
                if ab is not None and ab[0].is_const() and abs(ab[0].cval()) == 1:
                    return ("at", ab[1].scale(-1 / ab[0].cval()))
            if len(ids) == 1 and val:
                D = ids[0]
                m = D.args[1]
                num = D.args[0]
                ab = T.coeff_of(num, self.kid)
                if ab is None or not (ab[0] is ONE) or self.kid in T.atoms_rec(m):
                    return None
                o = ab[1]
                # p = +-( (k+o) - m*idiv - e ): rem == e
                for sg in (1, -1):
                    e = (num - m * T.apoly(D)) - p.scale(sg)
                    if self.kid not in T.atoms_rec(e):
                        # rem(k+o, m) == e   <=>  rem(k + o + (m-1-e), m) == m-1
                        return ("cyc", m, o + m - 1 - e)
            return None
        if A.kind == "ge":
            P0, c = A.args
            ids = [T.ATOMS[i] for i in P0.atoms() if self.kid in T.ATOMS[i].fv and T.ATOMS[i].kind == "idiv"]
            if len(ids) == 1:
                D = ids[0]
                m, num = D.args[1], D.args[0]
                ab = T.coeff_of(num, self.kid)
                if ab is None or not (ab[0] is ONE) or self.kid in T.atoms_rec(m):
                    return None
                o = ab[1]
                rm = num - m * T.apoly(D)
                # rem >= m-1 (true) or rem <= m-2 (false)
                if (P0 - c - (rm - (m - 1))).is_zero() and val:
                    return ("cyc", m, o)
                if (c - P0 - (rm - (m - 1))).is_zero() and val:
                    return None
                d = rm - (P0 - c)
                if val and self.kid not in T.atoms_rec(d) and (d - (m - 1)).is_zero():
                    return ("cyc", m, o)
                # not(rem <= m-2):  P0 >= c  with  P0 - c = (m-2) - rem
                if not val and ((P0 - c) - ((m - 2) - rm)).is_zero():
                    return ("cyc", m, o)
                return None
            ab = T.coeff_of(P0, self.kid)
            if ab is None:
                return None
            a1, b1 = ab
            s = T.sign(a1)
            if s == 1:
                # a1*k >= c - b1
                root = ceil_div(T.const(c) - b1, a1)
                return ("from", root) if val else ("until", root)
            if s == -1:
                # k <= (b1 - c)/(-a1)
                root = T.idiv(b1 - c, -a1) + 1
                return ("until", root) if val else ("from", root)
        return None

    def latch(self, R, Rf, init):
        """x' = R*f + (1-R)*x with Rf = R*f"""
        k = self.k
        ev = self.events(R)
        if R is ONE:
            f = self.at(Rf, k - 1)
            r = self.unify(f, init)
            if r is None:
                self.want_peel = True
            return r
        if ev is None:
            return None
        if ev[0] == "cyc":
            m, o = ev[1], ev[2]
            if not T.nonneg(m - 1):
                return None
            q = T.idiv(k + o, m)
            j = m * q - 1 - o
            with T.assume(R):
                pass
            # f at the event index
            f = self.at(Rf, j)
            q0 = T.idiv(o, m)
            if T.nonneg(o) and T.nonneg(m - 1 - o):
                f0 = self.at(Rf, -ONE - o)
                if undef(init) or f0 == init:
                    return f
                c = T.ge0(q - 1)
                return T.ite(c, f, init)
            return None
        if ev[0] == "at":
            root = ev[1]
            c = T.ge0(k - root - 1) * T.ge0(root)
            if undef(init):
                init = ZERO
            return T.ite(c, self.at(Rf, root), init)
        if ev[0] == "from":
            root = ev[1]
            f = self.at(Rf, k - 1)
            if undef(init):
                init = ZERO
            with T.assume(T.ge0(k - 1 - root)):
                f = T.renorm(f)
            return T.ite(T.ge0(k - 1 - root) * T.ge0(k - 1), f, init)
        return None

    def cyclic(self, rec, U, ma):
        """counter with reset: U = a if mu hits e else mu + d"""
        bs = [b for b in U.bool_atoms() if ma.id in T.atoms_rec(b)]
        if len(bs) != 1:
            return None
        b = bs[0]
        u1, u0 = U.subst0(b, 1), U.subst0(b, 0)
        k, mu, init = self.k, rec.sym, rec.init
        for reset, run, val in ((u1, u0, 1), (u0, u1, 0)):
            if ma.id in T.atoms_rec(reset) or not self.free(reset):
                continue
            d = run - mu
            if not d.is_const() or abs(d.cval()) != 1:
                continue
            d = int(d.cval())
            # reset level e
            e = None
            if b.kind == "eq" and val:
                ab = T.coeff_of(b.args[0], ma.id)
                if ab is not None and ab[0].is_const() and abs(ab[0].cval()) == 1:
                    e = ab[1].scale(-1 / ab[0].cval())
            elif b.kind == "ge":
                P0, c = b.args
                ab = T.coeff_of(P0, ma.id)
                if ab is not None and ab[0].is_const() and abs(ab[0].cval()) == 1:
                    s = ab[0].cval()
                    # s*mu + B >= c
                    if s == 1:
                        lev = T.const(c) - ab[1]          # true iff mu >= lev
                        if val and d == 1:
                            e = lev
                        elif not val and d == -1:
                            e = lev - 1
                    else:
                        lev = ab[1] - c                   # true iff mu <= lev
                        if val and d == -1:
                            e = lev
                        elif not val and d == 1:
                            e = lev + 1
            if e is None or not self.free(e) or self.kid in T.atoms_rec(e) or self.kid in T.atoms_rec(reset):
                continue
            a = reset
            if d == 1:
                m = e - a + 1
                if T.nonneg(m - 1) and T.nonneg(init - a) and T.nonneg(e - init):
                    return a + T.rem(k + init - a, m)
            else:
                m = a - e + 1
                if T.nonneg(m - 1) and T.nonneg(a - init) and T.nonneg(init - e):
                    return a - T.rem(k + a - init, m)
        return None

    def boolean(self, rec, U):
        k, mu, init = self.k, rec.sym, rec.init
        ma = T.the_atom(mu)
        if ma.id not in T.atoms_rec(U):
            if not self.free(U):
                return None
            if self.kid not in T.atoms_rec(U) and U == init:
                return init
            f = self.at(U, k - 1)
            r = self.unify(f, init)
            if r is None:
                self.want_peel = True
            return r
        if (U + mu) is ONE:
            par = T.rem(k, T.const(2))
            p = T.eqz(par - 1)
            return T.bxor(init, p)
        if ma.id not in U.atoms():
            return None
        u1, u0 = U.subst0(ma, 1), U.subst0(ma, 0)
        if ma.id in T.atoms_rec(u1) or ma.id in T.atoms_rec(u0):
            return None
        if not self.free(u1) or not self.free(u0):
            return None
        # U = mu ? u1 : u0
        if u1 is ONE and init.is_zero():
            ev = self.events(u0)      # latched true from first event
            if ev is not None and ev[0] in ("from", "at"):
                return T.ge0(k - 1 - ev[1]) * T.ge0(k - 1) if ev[0] == "from" else \
                    T.ge0(k - ev[1] - 1) * T.ge0(ev[1])
        if u1 is ONE and init is ONE:
            return ONE
        if u0.is_zero() and init.is_zero():
            return ZERO
        if u0.is_zero() and init is ONE:
            ev = self.events(ONE - u1)
            if ev is not None and ev[0] == "from":
                return ONE - T.ge0(k - 1 - ev[1]) * T.ge0(k - 1)
        return None

    # ---------------- sequences

    def seq(self, rec, U):
        k = self.k
        mu, init = rec.sym, rec.init
        if U is mu or U == mu:
            return init
        ops = []
        x = U
        while isinstance(x, OpSeq):
            ops.append(x)
            x = x.base
        if not (isinstance(x, SymSeq) and x.sid == mu.sid):
            if isinstance(U, Seq) and self.free(U):
                f = self.at(U, k - 1)
                r = self.unify(f, init)
                if r is None:
                    self.want_peel = True
                return r
            if isinstance(U, Seq):
                return self.seq_elementwise(rec, U)
            return None
        ops.reverse()
        names = [o.op for o in ops]
        if not isinstance(init, Seq):
            return None
        if all(n in ("push", "ext") for n in names):
            parts = []
            for o in ops:
                if o.op == "push":
                    if not self.free(o.args[0]):
                        return None
                    parts.append(Seg(ONE, None, o.args[0]))
                else:
                    if not self.free(o.args[0]):
                        return None
                    parts.extend(o.args[0].segs)
            return self.appended(init, parts)
        if names == ["pushf"]:
            v = ops[0].args[0]
            if not self.free(v):
                return None
            j = T.fresh("j", lo=0, hi=k - 1)
            return Seq((V.mkseg(k, j, self.at(v, k - 1 - j)),) + init.segs, init.kind)
        if names in (["pushf", "popb"], ["push", "popf"]):
            v = ops[0].args[0]
            g = ops[1].args[0] if ops[1].args else ONE
            if not self.free(v) or g is not ONE:
                return None
            n = init.length()
            j = T.fresh("j", lo=0, hi=n - 1)
            if names[0] == "pushf":
                c = T.ge0(k - 1 - j)
                with T.assume(c):
                    new = self.at(v, k - 1 - j)
                old = init.at(j - k)
                return Seq([V.mkseg(n, j, V.merge(c, new, old))], init.kind)
            c = T.ge0(j + k - n)
            with T.assume(c):
                new = self.at(v, j + k - n)
            old = init.at(j + k)
            return Seq([V.mkseg(n, j, V.merge(c, new, old))], init.kind)
        if names in (["popb"], ["popf"]):
            g = ops[0].args[0] if ops[0].args else ONE
            if g is not ONE:
                return None
            n = init.length()
            return V.take(init, n - k) if names[0] == "popb" else V.drop(init, k)
        if names == ["set"]:
            return self.seq_set(rec, ops[0], init)
        return None

    def appended(self, init, parts):
        k = self.k
        ln = ZERO
        for s in parts:
            if s.len is INF:
                return None
            ln = ln + s.len
        if self.kid in T.atoms_rec(ln):
            return None
        if len(parts) == 1 and parts[0].len is ONE:
            j = T.fresh("j", lo=0, hi=k - 1)
            seg = V.mkseg(k, j, self.at(parts[0].at(ZERO), j))
            return Seq(init.segs + (seg,), init.kind)
        if not T.nonneg(ln - 1):
            return None
        inner = Seq(parts)
        n = k * ln
        i = T.fresh("i", lo=0, hi=n - 1)
        q, r = T.idiv(i, ln), T.rem(i, ln)
        body = self.at(inner, q).at(r) if isinstance(inner, Seq) else None
        return Seq(init.segs + (V.mkseg(n, i, body),), init.kind)

    def seq_set(self, rec, o, init):
        k, kid = self.k, self.kid
        idx, x = o.args
        ab = T.coeff_of(idx, kid)
        if ab is None or not self.free(idx):
            return None
        a, b = ab
        n = init.length()
        # x may mention the element being replaced (not yet written in earlier steps)
        sid = rec.sym.sid
        if mentions(x, set(), {sid}):
            cur = V.seq_at(rec.sym, idx)
            mp = {}

            def pair(c, o):
                if isinstance(c, Agg) and isinstance(o, Agg) and len(c.fields) == len(o.fields):
                    return all(pair(p, q) for p, q in zip(c.fields, o.fields))
                ca = T.the_atom(c) if isinstance(c, Poly) and isinstance(o, Poly) else None
                if ca is None:
                    return False
                mp[ca.id] = o
                return True
            if not pair(cur, init.at(idx)):
                return None
            x = T.vsubst(x, mp)
            if mentions(x, set(), {sid}):
                return None
        if not self.free(x):
            return None
        if a is ONE:
            if b.is_zero():
                j = T.fresh("j", lo=0, hi=k - 1)
                w = T.fresh("j", lo=0, hi=n - k - 1)
                return Seq([V.mkseg(k, j, self.at(x, j)), V.mkseg(n - k, w, init.at(w + k))], init.kind)
            t = T.fresh("j", lo=0, hi=n - 1)
            c = T.ge0(t - b) * T.ge0(k - 1 - (t - b))
            return Seq([V.mkseg(n, t, V.merge(c, self.at(x, t - b), init.at(t)))], init.kind)
        if a is -ONE or (a + 1).is_zero():
            # idx = b - k
            t = T.fresh("j", lo=0, hi=n - 1)
            kk = b - t
            c = T.ge0(kk) * T.ge0(k - 1 - kk)
            return Seq([V.mkseg(n, t, V.merge(c, self.at(x, kk), init.at(t)))], init.kind)
        return None

    def seq_elementwise(self, rec, U):
        """U[j] = g(j, mu[j], k) for every j"""
        mu, init = rec.sym, rec.init
        n = init.length()
        if not (U.length() is n or (U.length() - n).is_zero()):
            return None
        j = T.fresh("j", lo=0, hi=n - 1)
        u = U.at(j)
        m = V.seq_at(mu, j)
        r = self._elem(u, m, init.at(j), rec)
        if r is None:
            return None
        return Seq([V.mkseg(n, j, r)], init.kind)

    def _elem(self, u, m, i0, rec):
        if isinstance(u, Agg) and isinstance(m, Agg):
            fs = [self._elem(a, b, c, rec) for a, b, c in zip(u.fields, m.fields, i0.fields)]
            if any(f is None for f in fs):
                return None
            return Agg(u.name, fs, u.targs)
        if isinstance(u, Poly) and isinstance(m, Poly):
            D = u - m
            if self.free(D):
                return i0 + self.sumk(D)
        return None


def ceil_div(a, b):
    return -T.idiv(-a, b)


# ---------------------------------------------------------------- exit thresholds

def literals(E):
    """E (bool poly) as a product of literals [(Atom, 0|1)], or None"""
    out = []
    for _ in range(12):
        if E is ONE:
            return out
        l = T._lit(E)
        if l is not None:
            out.append(l)
            return out
        hit = False
        for a in E.bool_atoms():
            g0, g1 = E.subst0(a, 0), E.subst0(a, 1)
            if g0.is_zero():
                out.append((a, 1))
                E = g1
                hit = True
                break
            if g1.is_zero():
                out.append((a, 0))
                E = g0
                hit = True
                break
        if not hit:
            return None
    return None


def litpoly(l):
    a = T.apoly_raw(l[0])
    return a if l[1] else ONE - a


def tmax(a, b):
    if T.nonneg(a - b):
        return a
    if T.nonneg(b - a):
        return b
    return T.ite(T.ge0(a - b), a, b)


def tmin(a, b):
    if a is INF:
        return b
    if b is INF:
        return a
    if T.nonneg(a - b):
        return b
    if T.nonneg(b - a):
        return a
    return T.ite(T.ge0(a - b), b, a)


def first_true(E, k):
    """first index k>=0 with E(k)=1: (T, cond) meaning T if cond else never; raises Undecided"""
    kid = T.the_atom(k).id
    if E.is_zero():
        return INF, ZERO
    if E is ONE:
        return ZERO, ONE
    if kid not in T.atoms_rec(E):
        return ZERO, E
    ls = literals(E)
    if ls is None:
        # disjunction of literals?
        co = literals(ONE - E)
        if co is None:
            raise Undecided("exit condition %s" % E)
        best, cond = INF, ZERO
        for a, v in co:
            t, c = first_true(litpoly((a, 1 - v)), k)
            if t is INF or c.is_zero():
                continue
            if c is ONE:
                if best is INF:
                    best, cond = t, ONE
                elif cond is ONE:
                    best = tmin(best, t)
                else:
                    raise Undecided("exit condition")
            else:
                if best is INF:
                    best, cond = t, c
                else:
                    raise Undecided("exit condition")
        return best, cond
    rec = Rec(k, set(), set())
    t, cond = ZERO, ONE
    cyc = None
    decs = []
    for l in ls:
        p = litpoly(l)
        if kid not in T.atoms_rec(p):
            cond = cond * p
            continue
        ev = rec.events(p)
        if ev is None:
            ev = event_idiv(p, k)
        if ev is None:
            raise Undecided("exit condition %s" % p)
        if ev[0] == "from":
            t = tmax(t, ev[1])
        elif ev[0] == "until":
            decs.append(ev[1])
        elif ev[0] == "at":
            if cyc is not None:
                raise Undecided("exit condition")
            cyc = ev
        elif ev[0] == "cyc":
            if cyc is not None:
                raise Undecided("exit condition")
            cyc = ev
    if cyc is not None and cyc[0] == "at":
        cond = cond * T.ge0(cyc[1] - t)
        t = cyc[1]
    elif cyc is not None:
        m, o = cyc[1], cyc[2]
        # first k >= t with k = m*q + m - 1 - o
        q = ceil_div(t - (m - 1) + o, m)
        # k = m*q + m-1-o
        t = m * q + m - 1 - o
    for d in decs:
        cond = cond * T.ge0(d - 1 - t)
    return t, cond


def event_idiv(p, k):
    """[d*idiv(k+o,m) + B >= c] monotone"""
    kid = T.the_atom(k).id
    A, val = T._lit(p)
    if A.kind != "ge":
        return None
    P0, c = A.args
    ids = [T.ATOMS[i] for i in P0.atoms() if kid in T.ATOMS[i].fv]
    if len(ids) != 1 or ids[0].kind != "idiv":
        return None
    D = ids[0]
    ab = T.coeff_of(P0, D.id)
    nb = T.coeff_of(D.args[0], kid)
    if ab is None or nb is None or nb[0] is not ONE or kid in T.atoms_rec(D.args[1]):
        return None
    o, m = nb[1], D.args[1]
    s = T.sign(ab[0])
    if s == 1:
        lev = ceil_div(T.const(c) - ab[1], ab[0])     # idiv >= lev
        root = m * lev - o
        return ("from", root) if val else ("until", root)
    if s == -1:
        lev = T.idiv(ab[1] - c, -ab[0])               # idiv <= lev
        root = m * (lev + 1) - o
        return ("until", root) if val else ("from", root)
    return None


# ---------------------------------------------------------------- summaries

class Summary:
    pass


def given(p, B):
    if p is B:
        return ONE
    if (p + B) is ONE:
        return ZERO
    return p


def norm_given(v, B):
    if isinstance(v, Poly):
        return given(v, B)
    if isinstance(v, Enum):
        return Enum(v.adt, [(i, given(g, B), tuple(norm_given(x, B) for x in f)) for i, g, f in v.vs])
    if isinstance(v, Agg):
        return Agg(v.name, [norm_given(x, B) for x in v.fields], v.targs)
    return v


DEBUG = [False]


def within(problem, k0, k):
    """what holds of the number of a step that is taken"""
    if problem.limit is None or problem.limit is INF:
        return ()
    return (T.ge0(problem.limit - k0 - 1 - k),)


def summarise(problem, store, path, k0, asm=(), depth=0):
    """solve the recurrences of the cells changed by problem.step starting at `store`"""
    k = T.fresh("k", lo=0)
    kid = T.the_atom(k).id
    if problem.limit is not None and problem.limit is not INF:
        # a step starts before the limit; a closed form also holds at it
        T.BOUNDS[kid] = (ZERO, problem.limit - k0)
    R = Relator(None)
    M = dict(store)
    smap, qmap = {}, {}
    solved = {}
    cur = None

    def build():
        return {c: inst(v, smap, qmap) for c, v in M.items()}

    def conds(kk=None):
        out = []
        for a in asm:
            p = a
            if smap:
                p = T.subst(p, smap)
            out.append(p)
        return tuple(out)

    cell_init = dict(store)
    # note: assumptions mention symbol names created by a previous attempt; keep them stable
    keep = problem.__dict__.get("_stable")
    if keep is not None:
        R = keep["R"]
        M = dict(keep["M"])
        k = keep["k"]
        kid = T.the_atom(k).id
        R.changed = False
    for rnd in range(14):
        R.upd = {}
        R.changed = False
        S = build()
        cs = conds()
        p2 = tuple(path) + tuple(c for c in cs if c is not ONE)
        if any(c.is_zero() for c in cs):
            raise Undecided("contradictory phase")
        with T.assume(*p2), T.assume(*within(problem, k0, k)):
            cur = problem.step(S, p2, k0 + k)
            if cur.back is None:
                # no iteration continues from this state
                sm = Summary()
                sm.k, sm.step, sm.M, sm.smap, sm.qmap, sm.asm, sm.R = k, cur, M, smap, qmap, asm, R
                sm.build = build
                sm.dead = True
                return sm
            B = cur.cond
            with T.assume(B):
                newM = {}
                for c in M:
                    if c not in cur.back.store:
                        newM[c] = M[c]
                        continue
                    U = cur.back.store[c]
                    if U is S[c]:
                        newM[c] = M[c]
                        if R.has_sym((c,)):
                            R.relate(M[c], U, cell_init[c], (c,))
                        continue
                    U = V.norm_val(norm_given(U, B))
                    newM[c] = R.relate(M[c], U, cell_init[c], (c,))
        if R.changed:
            M = newM
            continue
        un = [n for n in R.syms if n not in solved]
        if not un:
            break
        unatoms = set()
        sids = set()
        for n in un:
            r = R.syms[n]
            if r.kind == "seq":
                sids.add(r.sym.sid)
                for x in T.atoms_rec(r.sym.len) if r.sym.len is not INF else ():
                    if x in R.byatom:
                        unatoms.add(x)
            else:
                unatoms.add(T.the_atom(r.sym).id)
        progress = False
        peel = False
        stuck = {}
        for n in un:
            if n not in R.upd:
                U = R.syms[n].sym
            else:
                U = R.upd[n]
            r = R.syms[n]
            me = set(unatoms)
            mes = set(sids)
            if r.kind == "seq":
                mes.discard(r.sym.sid)
                if r.sym.len is not INF:
                    for x in T.atoms_rec(r.sym.len):
                        me.discard(x) if x in R.byatom and R.byatom[x] == n else None
            else:
                me.discard(T.the_atom(r.sym).id)
            rc = Rec(k, me, mes)
            # the closed form holds before iteration k, which is B(k - 1) and not yet B(k)
            with T.assume(*p2):
                try:
                    if r.kind == "seq":
                        cf = rc.seq(r, U)
                    else:
                        cf = rc.scalar(r, U) if isinstance(U, Poly) else None
                except Undecided:
                    cf = None
            if cf is None:
                peel = peel or rc.want_peel
                stuck[n] = U
                continue
            solved[n] = cf
            progress = True
            if r.kind == "seq":
                qmap[r.sym.sid] = cf
                if r.sym.len is not INF:
                    la = T.the_atom(r.sym.len)
                    if la is not None and la.id in R.byatom:
                        smap[la.id] = cf.length()
            else:
                smap[T.the_atom(r.sym).id] = cf
        if DEBUG[0] and not progress:
            print("  stuck:", {str(n): str(u)[:300] for n, u in stuck.items()}, "B=", str(B)[:200])
        if not progress:
            # joint affine guess, verified inductively
            g = guess_affine(problem, R, M, stuck, smap, qmap, store, path, k0, k, p2)
            if g:
                for n, cf in g.items():
                    solved[n] = cf
                    smap[T.the_atom(R.syms[n].sym).id] = cf
                continue
            problem._stuck = (R, dict(M), stuck, B, cur, dict(smap), k)
            g = None if getattr(problem, "noauto", False) else autonomous(R, stuck, k, unatoms, sids)
            if g:
                for n, cf in g.items():
                    solved[n] = cf
                    smap[T.the_atom(R.syms[n].sym).id] = cf
                continue
            if peel:
                raise NeedPeel()
            raise Undecided("recurrence not solved: %s" % ", ".join(str(u)[:160] for u in stuck.values()))
    else:
        raise Undecided("loop state does not stabilise")
    sm = Summary()
    sm.k, sm.step, sm.M, sm.smap, sm.qmap, sm.asm, sm.R = k, cur, M, smap, qmap, asm, R
    sm.build = build
    sm.dead = False
    return sm


def guess_affine(problem, R, M, stuck, smap, qmap, store, path, k0, k, p2):
    ints = [n for n in stuck if R.syms[n].kind == "int" and isinstance(R.syms[n].init, Poly)]
    if not ints or len(ints) != len(stuck) and False:
        return None
    try:
        with T.assume(*path):
            s1 = problem.step(dict(store), path, k0)
        if s1.back is None:
            return None
        R1 = {}
        with T.assume(*path):
            with T.assume(s1.cond):
                collect(M, s1.back.store, R, R1)
    except (Undecided, Exception) as e:
        if not isinstance(e, Undecided):
            return None
        return None
    g = {}
    for n in ints:
        v1 = R1.get(n)
        if not isinstance(v1, Poly):
            continue
        d = T.renorm(v1) - R.syms[n].init
        if T.the_atom(k).id in T.atoms_rec(d):
            continue
        g[n] = R.syms[n].init + k * d
    if not g:
        return None
    # verify: one step from the guessed state gives the guess at k+1
    sm2 = dict(smap)
    for n, cf in g.items():
        sm2[T.the_atom(R.syms[n].sym).id] = cf
    S = {c: inst(v, sm2, qmap) for c, v in M.items()}
    try:
        with T.assume(*within(problem, k0, k)):
            cur = problem.step(S, p2, k0 + k)
    except Undecided:
        return None
    if cur.back is None:
        return None
    upd = {}
    with T.assume(*p2), T.assume(*within(problem, k0, k)):
        with T.assume(cur.cond):
            collect(M, cur.back.store, R, upd)
            kid = T.the_atom(k).id
            for n, cf in g.items():
                u = upd.get(n)
                if not isinstance(u, Poly):
                    return None
                if not (T.renorm(u) - T.subst(cf, {kid: k + 1})).is_zero():
                    return None
    return g


def collect(M, store, R, out):
    """values found in `store` at the symbol positions of M"""
    for c, m in M.items():
        if c in store:
            _collect(m, store[c], (c,), R, out)


def _collect(m, u, name, R, out):
    if name in R.syms:
        out[name] = u
        return
    if isinstance(m, Enum) and isinstance(u, Enum):
        ids = [i for i, _, _ in m.vs]
        if len(ids) == 2:
            _collect(m.guard(ids[1]), u.guard(ids[1]), name + ("g", ids[1]), R, out)
        for i in ids:
            fm, fu = m.fields(i), u.fields(i)
            if fm is None or fu is None:
                continue
            for j, (a, b) in enumerate(zip(fm, fu)):
                _collect(a, b, name + ("vf", i, j), R, out)
    elif isinstance(m, (Agg, Closure, Sym)) and type(m) is type(u):
        ms = m.fields if isinstance(m, Agg) else (m.caps if isinstance(m, Closure) else m.args)
        us = u.fields if isinstance(u, Agg) else (u.caps if isinstance(u, Closure) else u.args)
        for i, (a, b) in enumerate(zip(ms, us)):
            _collect(a, b, name + ("f", i), R, out)
    elif isinstance(m, Stream) and isinstance(u, Stream):
        _collect(m.pos, u.pos, name + ("pos",), R, out)
    elif isinstance(m, Seq) and isinstance(u, Seq):
        lm, lu = m.lit(), u.lit()
        if lm is not None and lu is not None and len(lm) == len(lu):
            for i, (a, b) in enumerate(zip(lm, lu)):
                _collect(a, b, name + ("ix", i), R, out)


def autonomous(R, stuck, k, unatoms, sids):
    """mu' = F(mu) with F free of k and other unsolved symbols: mu_k = iter(F, init, k)"""
    g = {}
    kid = T.the_atom(k).id
    for n, U in stuck.items():
        r = R.syms[n]
        if r.kind not in ("real", "int") or not isinstance(U, Poly) or not isinstance(r.init, Poly):
            continue
        ma = T.the_atom(r.sym).id
        ids = T.atoms_rec(U)
        if kid in ids or (ids & (unatoms - {ma})) or mentions(U, unatoms - {ma}, sids):
            continue
        if T.opaques(U):
            continue
        g[n] = T.iterate(r.sym, U, r.init, k)
    return g


# ---------------------------------------------------------------- driver

class Outcome:
    def __init__(self):
        self.segs = []
        self.exits = []
        self.end = None
        self.alive = ONE


MAXPHASE = 5


def solve(problem, store, path, streams=False):
    out = Outcome()
    k0 = ZERO
    alive = ONE
    st = dict(store)
    path = tuple(path)
    peels = 0
    for phase in range(MAXPHASE + 3):
        if problem.limit is not None and problem.limit is not INF:
            rest = problem.limit - k0
            if T.nonneg(-rest):
                out.end = (alive, st, path)
                return out
        res = None
        problem.__dict__.pop("_stable", None)
        err = None
        try:
            sm = summarise(problem, st, path, k0)
            res = finish(problem, sm, st, path, k0, out, alive, streams)
        except NeedPeel:
            err = "peel"
        except Undecided as e:
            err = e
        if res is None and err is not None and not isinstance(err, str):
            # phases: fix the truth of one or two loop-dependent conditions
            res = try_phases(problem, st, path, k0, out, alive, streams)
        if res is None:
            if peels >= 3:
                raise Undecided("loop: %s" % err)
            peels += 1
            r = peel(problem, st, path, k0, out, alive)
            if r is None:
                return out
            st, path, alive = r
            k0 = k0 + 1
            continue
        kind = res[0]
        if kind == "done":
            return out
        _, st, path, alive, dk = res
        k0 = k0 + dk
    raise Undecided("loop does not settle into phases")


def peel(problem, st, path, k0, out, alive):
    with T.assume(*path):
        s = problem.step(dict(st), path, k0)
    if problem.limit is not None and problem.limit is not INF:
        if not T.nonneg(problem.limit - k0 - 1):
            c = T.ge0(problem.limit - k0 - 1)
            raise Undecided("cannot peel a possibly empty loop")
    cont = s.cond
    for c, tag, es in s.exits:
        c = T.renorm(c)
        if not c.is_zero():
            out.exits.append((alive * c, tag, es))
    if s.back is None or cont.is_zero():
        return None
    if s.item is not None:
        out.segs.append(Seg(alive * cont, None, s.item))
    with T.assume(*s.back.path):
        stn = {c: V.norm_val(v) for c, v in s.back.store.items()}
    return stn, s.back.path, alive * cont


def try_phases(problem, st, path, k0, out, alive, streams):
    stuck = getattr(problem, "_stuck", None)
    if stuck is None:
        return None
    R, M, sk, B, cur, smap, k = stuck
    symat = set(R.byatom) | {T.the_atom(k).id}
    cands = []
    for U in sk.values():
        for aid in sorted(T.atoms_rec(U)):
            A = T.ATOMS[aid]
            if A.kind in ("ge", "eq", "pos") and (T.atoms_rec(A) & symat) and aid not in cands:
                cands.append(aid)
    for aid in sorted(T.atoms_rec(B)):
        A = T.ATOMS[aid]
        if A.kind in ("ge", "eq") and (T.atoms_rec(A) & symat) and aid not in cands:
            cands.append(aid)
    cands = cands[:5]
    stable = {"R": R, "M": M, "k": k}
    tries = []
    for aid in cands:
        for v in (1, 0):
            tries.append([(aid, v)])
    n1 = list(tries)
    for i in range(len(cands)):
        for j in range(i + 1, len(cands)):
            for v in (1, 0):
                for w in (1, 0):
                    tries.append([(cands[i], v), (cands[j], w)])
    for tr in tries[:30]:
        asm = tuple(T.apoly_raw(T.ATOMS[a]) if v else ONE - T.apoly_raw(T.ATOMS[a]) for a, v in tr)
        n_seg, n_ex = len(out.segs), len(out.exits)
        try:
            R.upd = {}
            problem._stable = stable
            # symbols must be fresh per attempt for closed forms; structure is shared
            sm = summarise(problem, st, path, k0, asm)
            r = finish(problem, sm, st, path, k0, out, alive, streams)
            if r is not None:
                return r
        except (NeedPeel, Undecided) as e:
            if DEBUG[0]:
                print("  phase", [str(a) for a in asm], "->", type(e).__name__, str(e)[:200])
            del out.segs[n_seg:]
            del out.exits[n_ex:]
        finally:
            problem.__dict__.pop("_stable", None)
    return None


def finish(problem, sm, st, path, k0, out, alive, streams):
    """turn a solved summary into items/exits and the next state"""
    from .interp import State, prod
    k = sm.k
    kid = T.the_atom(k).id
    cur = sm.step
    left = set(sm.R.byatom)
    if left and not sm.dead:
        for x in [cur.item, *sm.smap.values(), *sm.qmap.values(), *[c for c, _, _ in cur.exits]]:
            if x is not None and T.atoms_rec(x) & left:
                raise Undecided("unsolved symbol in a closed form")
    with T.assume(*path):
        evs = []       # (T, cond, tag)
        if sm.dead:
            # assumption makes every step leave; treat as a peel
            raise Undecided("no continuing iteration")
        for c, tag, es in cur.exits:
            c = T.renorm(c)
            if c.is_zero():
                continue
            t, cd = first_true(c, k)
            if t is INF or cd.is_zero():
                continue
            t = clamp0(t)
            evs.append((t, cd, "exit", tag))
        for a in sm.asm:
            p = T.subst(a, sm.smap)
            p = T.renorm(p)
            if p is ONE:
                continue
            t, cd = first_true(ONE - p, k)
            if t is INF or cd.is_zero():
                continue
            t = clamp0(t)
            evs.append((t, cd, "phase", None))
        if problem.limit is not None and problem.limit is not INF:
            evs.append((problem.limit - k0, ONE, "end", None))
        if DEBUG[0]:
            print("  events", [(str(t), str(c), kd) for t, c, kd, _ in evs])
        if not evs:
            # runs forever
            if cur.item is not None:
                w = T.fresh("i", lo=0)
                out.segs.append(cond_seg(alive, V.mkseg(INF, w, T.vsubst(cur.item, {kid: w}))))
                return ("done",)
            raise NoExit()
        # condition that event j comes first
        n = len(evs)
        firsts = []
        for j in range(n):
            tj, cj = evs[j][0], evs[j][1]
            c = cj
            for i in range(n):
                if i == j or c.is_zero():
                    continue
                ti, ci = evs[i][0], evs[i][1]
                d = tj - ti - 1
                if i < j:
                    before = T.ge0(tj - ti) if evs[i][2] != "exit" or evs[j][2] != "exit" else T.ge0(tj - ti)
                else:
                    before = T.ge0(d)
                c = c * (ONE - ci * before)
            firsts.append(T.renorm(c))
        tot = ZERO
        live = [(evs[j], firsts[j]) for j in range(n) if not firsts[j].is_zero()]
        for e, c in live:
            tot = tot + c
        tot = T.renorm(tot)
        if tot is not ONE:
            if cur.item is not None and all(e[2] == "exit" for e, _ in live):
                pass
            else:
                raise Undecided("loop may not terminate")
        # phase of length zero makes no progress
        if any(e[2] == "phase" and e[0].is_zero() for e, c in live):
            raise Undecided("empty phase")
        length = ZERO
        for (t, cd, kd, tag), c in live:
            length = length + c * t
        if cur.item is not None:
            if tot is not ONE:
                # finite with tot, infinite otherwise: not representable
                raise Undecided("stream of undecided finiteness")
            length = T.renorm(length)
            w = T.fresh("i", lo=0, hi=length - 1)
            facts = []
            item = T.vsubst(cur.item, {kid: w})
            facts = [e[0] - 1 - w for e, c in live if len(live) == 1]
            for e, c in live:
                facts.append(None)
            # within the run no event has happened yet
            ge = [x for x in facts if x is not None]
            nn = []
            for (t, cd, kd, tag) in evs:
                if cd is ONE:
                    nn.append(t - 1 - w)
            with T.assume(ge0=tuple(nn)):
                item = V.norm_val(item)
                # conditions assumed during the phase also simplify the item
                cs = [T.subst(T.subst(a, sm.smap), {kid: w}) for a in sm.asm]
                with T.assume(*cs):
                    item = V.norm_val(item)
            out.segs.append(Seg(alive * length, *seg_body(w, item)))
        nxt = []
        for (t, cd, kd, tag), c in live:
            S = {cc: state_at(v, sm, kid, t) for cc, v in sm.M.items()}
            p2 = path if c is ONE else path + (c,)
            with T.assume(*p2):
                S = {cc: V.norm_val(v) for cc, v in S.items()}
            if kd == "exit":
                if streams:
                    # state after the end is never observed
                    out.exits.append((alive * c, tag, None))
                    continue
                with T.assume(*p2):
                    s2 = problem.step(S, p2, k0 + t)
                    got = ZERO
                    for ec, et, es in s2.exits:
                        ec = T.renorm(ec)
                        if ec.is_zero():
                            continue
                        if ec is not ONE and kd == "exit":
                            got = got + ec
                            out.exits.append((alive * c * ec, et, es))
                            continue
                        got = got + ec
                        out.exits.append((alive * c, et, es))
                    if T.renorm(got) is not ONE:
                        if DEBUG[0]:
                            print("  exit guard not decided", got, [str(x[0]) for x in s2.exits])
                        raise Undecided("exit not decided at its threshold")
            elif kd == "end":
                out.end = (alive * c, S, p2)
            else:
                nxt.append((c, S, p2, t))
        if not nxt:
            return ("done",)
        if len(nxt) > 1:
            raise Undecided("several phases follow")
        c, S, p2, t = nxt[0]
        return ("next", S, p2, alive * c, t)


def seg_body(w, t):
    s = V.mkseg(ONE, w, t)
    return s.v, s.t


def cond_seg(alive, seg):
    if alive is ONE:
        return seg
    raise Undecided("conditional infinite stream")


def state_at(v, sm, kid, t):
    x = inst(v, sm.smap, sm.qmap)
    return T.vsubst(x, {kid: t})


def clamp0(t):
    if T.nonneg(t):
        return t
    if T.nonneg(-t):
        return ZERO
    return t * T.ge0(t)


# ---------------------------------------------------------------- CFG loops

def unroll(problem, st, path, limit, must=True):
    """fully unroll when every exit decision is a constant; returns exits or None"""
    s = dict(st)
    p = tuple(path)
    for i in range(limit):
        with T.assume(*p):
            r = problem.step(s, p, T.const(i))
        ex = [(c, t, e) for c, t, e in r.exits if not T.renorm(c).is_zero()]
        if r.back is None or r.cond.is_zero():
            return ex
        if ex:
            tot = sum((c for c, _, _ in ex), ZERO)
            if not tot.is_zero():
                return None
        s, p = r.back.store, r.back.path
    return None


def run_cfg_loop(I, fr, comp, h, st):
    """-> [(target, State)]"""
    from .interp import State
    p = CfgProblem(I, fr, comp, h, st.path)
    npan = len(I.panics)
    if I.demand is not None:
        before = I.demand.reads
        try:
            ex = unroll(p, st.store, st.path, 600)
        except NoExit:
            ex = None
        if ex is not None:
            return [(t, s) for _, t, s in ex]
        if I.demand.reads > before:
            if I.demand.reads > before + 500:
                from .demand import Endless
                raise Endless("reads an endless input without bound")
            raise Undecided("reads of the input depend on the data")
        del I.panics[npan:]
    # constant trip counts are unrolled (up to 600 where the same loop has had no closed form before)
    hard = I.__dict__.setdefault("hard", set())
    key = (fr.body["path"], h)
    try:
        ex = unroll(p, st.store, st.path, 600 if key in hard else 70)
    except (Undecided, NoExit):
        ex = None
    if ex is not None:
        return [(t, s) for _, t, s in ex]
    del I.panics[npan:]
    try:
        out = solve(p, st.store, st.path)
        if out.exits:
            res = []
            for c, t, s in out.exits:
                res.append((t, s))
            return res
        err = "no exits"
    except (Undecided, NoExit) as e:
        err = e
    if DEBUG[0]:
        print("loop in", fr.body["path"], "->", err)
    ex = unroll(p, st.store, st.path, 600)
    if ex is not None:
        hard.add(key)
        return [(t, s) for _, t, s in ex]
    # give up: everything written in the loop is unknown
    raise Undecided("loop in %s: %s" % (fr.body["path"], err))


# ---------------------------------------------------------------- guess and verify

def gent(a, b, k):
    """a term t(k) with t(0) = a and t(1) = b, found by matching the two structurally; None if they do not match"""
    if a is b:
        return a
    if T.is_int(a) and T.is_int(b) and not _has(a, ("elem", "app", "sum")) and not _has(b, ("elem", "app", "sum")):
        return a + k * (b - a)
    d = b - a
    if d.is_const():
        return a + k * d
    ta, tb = _sorted_terms(a), _sorted_terms(b)
    if len(ta) != len(tb):
        return None
    r = ZERO
    for (ma, ca), (mb, cb) in zip(ta, tb):
        x = T.const(ca) + k * T.const(cb - ca) if ca != cb else T.const(ca)
        fa, fb = _sorted_factors(ma), _sorted_factors(mb)
        if len(fa) != len(fb):
            return None
        for (A, ea), (B, eb) in zip(fa, fb):
            if ea != eb:
                return None
            if A is B:
                x = x * T.ppow(T.apoly_raw(A), ea)
                continue
            if A.kind != B.kind or len(A.args) != len(B.args):
                return None
            if A.kind == "var":
                return None
            args = []
            for p, q in zip(A.args, B.args):
                y = gen2(p, q, k)
                if y is None:
                    return None
                args.append(y)
            x = x * T.ppow(T.rebuild(A, tuple(args)), ea)
        r = r + x
    return r


def _has(p, kinds):
    return any(T.ATOMS[i].kind in kinds for i in T.atoms_rec(p))


def _skey(A):
    import re
    return (A.kind, re.sub(r"[0-9]+", "#", T.atom_str(A)))


def _sorted_factors(m):
    return sorted(((T.ATOMS[a], e) for a, e in m), key=lambda x: (_skey(x[0]), x[1], T.atom_str(x[0])))


def _sorted_terms(p):
    def key(mc):
        m, c = mc
        return (len(m), [(_skey(A), e) for A, e in _sorted_factors(m)], [T.atom_str(A) for A, e in _sorted_factors(m)])
    return sorted(p.t.items(), key=key)


def gen2(a, b, k, c=None):
    """template over k through two (three) consecutive states; None when they do not match"""
    if a is b:
        return a
    if isinstance(a, Poly) and isinstance(b, Poly):
        r = gent(a, b, k)
        if isinstance(c, Poly):
            if r is not None:
                ok = T.subst(r, {T.the_atom(k).id: T.const(2)})
                if ok is c or (T.renorm(ok) - T.renorm(c)).is_zero():
                    return r
            d = gent(b - a, c - b, k)
            if d is None:
                return None
            j = T.fresh("j", lo=0, hi=k - 1)
            return a + T.msum(k, j, T.subst(d, {T.the_atom(k).id: j}))
        return r
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return None
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            z = gen2(x, y, k, c[i] if isinstance(c, tuple) and len(c) == len(a) else None)
            if z is None:
                return None
            out.append(z)
        return tuple(out)
    if type(a) is not type(b):
        return None
    if isinstance(a, Seq):
        la, lb = a.lit(), b.lit()
        if la is not None and lb is not None:
            if len(la) != len(lb):
                return None
            lc = c.lit() if isinstance(c, Seq) else None
            out = gen2(tuple(la), tuple(lb), k, tuple(lc) if lc is not None and len(lc) == len(la) else None)
            return None if out is None else V.lit(out, a.kind)
        if len(a.segs) != len(b.segs) or a.kind != b.kind:
            return None
        segs = []
        for x, y in zip(a.segs, b.segs):
            if (x.len is INF) != (y.len is INF) or (x.v is not y.v):
                return None
            ln = INF if x.len is INF else gen2(x.len, y.len, k)
            t = gen2(x.t, y.t, k)
            if ln is None or t is None:
                return None
            segs.append(Seg(ln, x.v, t))
        return Seq(segs, a.kind)
    if isinstance(a, V.Val):
        if a == b:
            return a
        if isinstance(a, (SymSeq, OpSeq)):
            return None
        if isinstance(a, (Agg, Closure, Sym)) and a.name != b.name if isinstance(a, (Agg, Sym)) else False:
            return None
        if isinstance(a, Enum) and [(i, len(f)) for i, _, f in a.vs] != [(i, len(f)) for i, _, f in b.vs]:
            return None
        ka, kb = a.kids(), b.kids()
        kc = c.kids() if type(c) is type(a) else None
        if kc is not None and len(kc) != len(ka):
            kc = None
        out = gen2(tuple(ka), tuple(kb), k, kc)
        if out is None:
            return None
        r = a.rebuild(out)
        if isinstance(a, Closure) and a.key != b.key:
            return None
        return r
    return a if a == b else None


def same(a, b):
    if a is b or a == b:
        return True
    a, b = V.norm_val(a), V.norm_val(b)
    if a == b:
        return True
    if isinstance(a, Poly) and isinstance(b, Poly):
        return (a - b).is_zero()
    return False


def same_kids(a, b):
    """structural equality modulo renormalisation of every scalar"""
    if same(a, b):
        return True
    if isinstance(a, Seq) and isinstance(b, Seq):
        la, lb = a.lit(), b.lit()
        if la is not None and lb is not None:
            return len(la) == len(lb) and all(same_kids(x, y) for x, y in zip(la, lb))
        return False
    if type(a) is type(b) and isinstance(a, V.Val):
        if isinstance(a, Enum) and [(i, len(f)) for i, _, f in a.vs] != [(i, len(f)) for i, _, f in b.vs]:
            return False
        if isinstance(a, (SymSeq, OpSeq)):
            return False
        if isinstance(a, (Agg, Sym)) and a.name != b.name:
            return False
        if isinstance(a, Closure) and a.key != b.key:
            return False
        ka, kb = a.kids(), b.kids()
        return len(ka) == len(kb) and bool(ka) and all(same_kids(x, y) for x, y in zip(ka, kb))
    return False


def macro(problem, store, path, k0, p):
    """p consecutive steps; (items, store) or None when the state may leave"""
    items = []
    s = store
    for j in range(p):
        with T.assume(*path):
            r = problem.step(dict(s), path, k0 + j)
        if p == 1 and r.exits and (r.back is None or T.renorm(r.cond).is_zero()):
            return "end"
        if r.back is None or T.renorm(r.cond) is not ONE or len(r.back.path) != len(path):
            return None
        if any(not T.renorm(c).is_zero() for c, _, _ in r.exits):
            return None
        s = {c: V.norm_val(v) for c, v in r.back.store.items()}
        items.append(None if r.item is None else V.norm_val(r.item))
    return items, s


def gated(s, old):
    """did the step leave an unresolved branch in the state?"""
    for c, v in s.items():
        if old.get(c) is v:
            continue
        if size(v) > 60:
            return True
        new = T.atoms_rec(v) - T.atoms_rec(old.get(c) if old.get(c) is not None else ())
        for a in new:
            A = T.ATOMS[a]
            if A.kind in ("ge", "eq") and T.is_int(A.args[0]) and not _has(A.args[0], ("elem", "app", "sum", "opaque")):
                return True
    return False


def size(v):
    if isinstance(v, Poly):
        return len(v.t)
    if isinstance(v, V.Val):
        return max([size(k) for k in v.kids()], default=0)
    return 0


def long_period(states):
    """the period with which the whole-number parts of the states recur (parts that only grow aside)"""
    def leaves(v, at, out):
        if isinstance(v, Poly):
            if v.is_const():
                out[at] = v.cval()
        elif isinstance(v, V.Val) and not isinstance(v, Seq):
            for i, x in enumerate(v.kids()):
                leaves(x, at + (i,), out)
    rows = []
    for s in states:
        out = {}
        for c, v in s.items():
            leaves(v, (c,), out)
        rows.append(out)
    n = len(rows)
    best = 1
    for at in rows[1]:
        col = [r.get(at) for r in rows[1:]]
        if None in col or len(set(col)) == 1:
            continue
        for p in range(2, (n - 4) // 2):
            if all(col[i] == col[i + p] for i in range(len(col) - p)):
                best = best * p // math.gcd(best, p)
                break
    return best if 2 * best + 3 < n and best > 1 else None


def induct(problem, store, path, maxpre=3, maxper=8):
    """unbounded runs: find a state template with period p from the first states and verify it by one
    inductive step.  -> (prefix items, p, periodic items as functions of k, k) or None"""
    states = [dict(store)]
    items = []
    ended = []

    def extend(n):
        while len(states) <= n:
            r = macro(problem, states[-1], path, T.const(len(states) - 1), 1)
            if r is None or r == "end":
                if r == "end":
                    ended.append(1)
                return False
            items.extend(r[0])
            states.append(r[1])
            if gated(r[1], states[-2]):
                return False
        return True
    def attempt(p):
        for a in range(0, maxpre + 1):
            if not extend(a + 2 * p):
                return ((items, 0, [], None) if ended else None), True
            k = T.fresh("k", lo=0)
            kid = T.the_atom(k).id
            A, B, C = states[a], states[a + p], states[a + 2 * p]
            tmpl = {}
            ok = True
            for c, v in A.items():
                if c not in B or c not in C:
                    continue
                if B[c] is v and C[c] is v:
                    tmpl[c] = v
                    continue
                try:
                    t = gen2(v, B[c], k, C[c])
                except Undecided:
                    t = None
                if t is None or not same_kids(T.vsubst(t, {kid: ZERO}), v) or \
                        not same_kids(T.vsubst(t, {kid: ONE}), B[c]) or \
                        not same_kids(T.vsubst(t, {kid: T.const(2)}), C[c]):
                    ok = False
                    break
                tmpl[c] = t
            if not ok:
                continue
            try:
                r = macro(problem, tmpl, path, k * p + a, p)
            except Undecided:
                continue
            if r is None or r == "end":
                continue
            its, s2 = r
            if all(same_kids(s2.get(c), T.vsubst(t, {kid: k + 1})) if c in s2 else False for c, t in tmpl.items()
                   if T._arg_fv(t) & {kid} or s2.get(c) is not t):
                return (items[:a], p, its, k), True
        return None, False

    for p in range(1, maxper + 1):
        r, stop = attempt(p)
        if stop:
            return r
    if not extend(200):
        return (items, 0, [], None) if ended else None
    p = long_period(states)
    if p is not None and maxper < p:
        return attempt(p)[0]
    return None


def induct_seq(problem, store, path):
    r = induct(problem, store, path)
    if r is None:
        return None
    pre, p, its, k = r
    if p > 0 and 0 < len(pre) <= p:
        # rotate the period so that it starts with the first item
        a = len(pre)
        kid = T.the_atom(k).id
        head = [T.vsubst(x, {kid: k - 1}) for x in its[p - a:]]
        if all(same_kids(V.norm_val(T.vsubst(x, {kid: ZERO})), y) for x, y in zip(head, pre)):
            its = head + list(its[:p - a])
            pre = []
    segs = [Seg(ONE, None, x) for x in pre]
    if p == 0:
        return Seq(segs)
    if p == 1:
        segs.append(V.mkseg(INF, k, its[0]))
        return Seq(segs)
    # item n of the periodic part: residue r = n mod p selects the formula at k = n div p
    i = T.fresh("i", lo=0)
    q = T.idiv(i, T.const(p))
    l = V.lit(its)
    j = T.fresh("j", lo=0, hi=T.const(p - 1))
    x = T.vsubst(l.at(j), {T.the_atom(j).id: i - q * p, T.the_atom(k).id: q})
    segs.append(V.mkseg(INF, i, x))
    return Seq(segs)


def phase_from(problem, st, path):
    """one accelerated phase from a state: (segs, next state) or None"""
    problem.__dict__.pop("_stable", None)
    problem.__dict__.pop("_stuck", None)
    out = Outcome()
    problem.noauto = True
    try:
        try:
            summarise(problem, st, path, ZERO)
            return None
        except (Undecided, NeedPeel):
            pass
        r = try_phases(problem, st, path, ZERO, out, ONE, True)
    finally:
        problem.noauto = False
    if r is None or r[0] != "next" or out.exits or len(r[2]) != len(path) or r[3] is not ONE:
        return None
    return out.segs, {c: V.norm_val(v) for c, v in r[1].items()}


def phase_macro(problem, st, path):
    """phase of symbolic length followed by one step"""
    r = phase_from(problem, st, path)
    if r is None:
        return None
    segs, s = r
    m = macro(problem, s, path, ZERO, 1)
    if m is None or m == "end":
        return None
    its, s2 = m
    return segs + [Seg(ONE, None, its[0])], s2


def induct_phases(problem, store, path):
    """cycles made of one phase of symbolic length and one step, e.g. a counter that runs up to a parameter"""
    s = dict(store)
    pre = []
    for a in range(3):
        r1 = phase_macro(problem, s, path)
        r2 = phase_macro(problem, r1[1], path) if r1 is not None else None
        r3 = phase_macro(problem, r2[1], path) if r2 is not None else None
        if r3 is not None:
            q = T.fresh("q", lo=0)
            qid = T.the_atom(q).id
            tmpl = {}
            ok = True
            for c, v in s.items():
                if c not in r1[1] or c not in r2[1]:
                    continue
                b, d = r1[1][c], r2[1][c]
                if b is v and d is v:
                    tmpl[c] = v
                    continue
                t = gen2(v, b, q, d)
                if t is None or not same_kids(T.vsubst(t, {qid: ZERO}), v) or \
                        not same_kids(T.vsubst(t, {qid: ONE}), b) or \
                        not same_kids(T.vsubst(t, {qid: T.const(2)}), d):
                    ok = False
                    break
                tmpl[c] = t
            if ok:
                r = phase_macro(problem, tmpl, path)
                if r is not None and all(
                        c in r[1] and same_kids(r[1][c], T.vsubst(t, {qid: q + 1})) for c, t in tmpl.items()):
                    return pre, r[0], q
        m = macro(problem, s, path, ZERO, 1)
        if m is None or m == "end":
            return None
        pre.append(m[0][0])
        s = m[1]
    return None


def phases_seq(problem, store, path, concat, tidy):
    r = induct_phases(problem, store, path)
    if r is None:
        return None
    pre, segs, q = r
    if len(pre) == 1:
        qid = T.the_atom(q).id
        head = T.vsubst(segs[-1].t, {qid: q - 1})
        if same_kids(V.norm_val(T.vsubst(head, {qid: ZERO})), pre[0]):
            segs = [Seg(ONE, None, head)] + list(segs[:-1])
            pre = []
    inner = tidy(Seq(segs))
    outer = Seq([V.mkseg(INF, q, inner)])
    flat = concat(outer)
    return Seq([Seg(ONE, None, x) for x in pre] + list(flat.segs))
