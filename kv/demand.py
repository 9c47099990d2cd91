"""Demand analysis: how many items of its input a stream stage has read after each of its outputs.

The input is a tape: a stream of free items that counts the items taken from it.  Iterator adapters of the standard
library over a tape are kept as transition systems (their documented next()), the crate's own adapters are
interpreted from their next() bodies, and the stage is driven output by output.  Item values stay symbolic; only the
positions are concrete, so each count holds for every input."""
from . import term as T
from . import val as V
from .term import ZERO, ONE, Undecided
from .val import Agg, Closure, Enum, Ref, Stream

IT = "std::iter::Iterator::"
LIMIT = 3000


class Endless(Exception):
    """reads an endless input to its end"""


class Demand:
    def __init__(self):
        self.reads = 0
        self.mk = None
        self.n = None
        self.steps = 0
        self.stepwise = set()
        self.values = False     # the items matter, not only how many are read

    # -------------------------------------------------------- values
    def tape(self, mk, n=None):
        self.mk = mk
        self.n = n
        return Agg("Lazy:tape", [ZERO])

    def on(self, I, st, v, depth=0):
        """does v hold the tape"""
        if depth > 12:
            return False
        if isinstance(v, Agg):
            if v.name.startswith("Lazy:"):
                return True
            return any(self.on(I, st, x, depth + 1) for x in v.fields)
        if isinstance(v, Closure):
            return any(self.on(I, st, x, depth + 1) for x in v.caps)
        if isinstance(v, Ref):
            try:
                return self.on(I, st, I.read(st, v), depth + 1)
            except (Undecided, KeyError, AttributeError, TypeError):
                return False
        return False

    # -------------------------------------------------------- hook
    def hook(self, I, st, f, args):
        name = f["fn"]
        if not args:
            return NotImplemented
        if name.endswith("SliceRandom::shuffle") and not self.values:
            # which permutation it is does not change how much is read
            return V.UNIT
        if name == IT + "next":
            v = args[0]
            r = None
            while isinstance(v, Ref):
                r = v
                v = I.read(st, v)
            if isinstance(v, Agg) and v.name.startswith("Lazy:") and r is not None:
                x, v = self.step(I, st, v)
                I.write(st, r.cell, r.path, v)
                return x
            return NotImplemented
        if name.startswith("std::iter::Peekable::<I>::peek") and self.on(I, st, args[0]):
            r = args[0]
            v = I.read(st, r)
            while isinstance(v, Ref):
                r, v = v, I.read(st, v)
            src, have, item = v.fields
            if have.is_zero():
                item, src = self.pull(I, st, src)
                v = Agg(v.name, [src, ONE, item])
                I.write(st, r.cell, r.path, v)
            if name.endswith("peek") and isinstance(item, Enum):
                if item.guard(1) is ONE:
                    from .interp import new_id
                    cell = (new_id("d"), 0)
                    st.store[cell] = item.fields(1)[0]
                    return V.some(Ref(cell))
                return item
            raise Undecided(name)
        if not any(self.on(I, st, a) for a in args):
            return NotImplemented
        if name == "std::iter::from_fn":
            return Agg("Lazy:from_fn", [args[0]])
        if name == "std::iter::zip":
            return Agg("Lazy:zip", list(args))
        if name == "std::iter::IntoIterator::into_iter":
            return args[0]
        if name == "itertools::Itertools::tuples":
            n = [len(t["tup"]) for t in f.get("args", []) if isinstance(t, dict) and "tup" in t]
            if not n:
                raise Undecided("tuple arity")
            return Agg("Lazy:tuples", [args[0], T.const(n[0])])
        if name.startswith(IT):
            m = name[len(IT):]
            if m in ("cloned", "copied", "fuse", "by_ref"):
                return args[0]
            if m == "size_hint":
                raise Undecided("size_hint of the input")
            if m in ("map", "zip", "filter", "filter_map", "take_while", "skip_while", "map_while", "inspect", "flat_map"):
                return Agg("Lazy:" + m, list(args))
            if m == "flatten":
                return Agg("Lazy:flat_map", [args[0], V.UNIT])
            if m == "scan":
                return Agg("Lazy:scan", list(args))
            if m == "enumerate":
                return Agg("Lazy:enumerate", [args[0], ZERO])
            if m in ("take", "skip"):
                return Agg("Lazy:" + m, [args[0], args[1]])
            if m == "step_by":
                return Agg("Lazy:step_by", [args[0], args[1], ZERO])
            if m == "chain":
                return Agg("Lazy:chain", [args[0], args[1], ZERO])
            if m == "peekable":
                return Agg("Lazy:peekable", [args[0], ZERO, V.NONE])
            if m == "nth":
                k = self.num(args[1])
                for _ in range(k):
                    self.via(I, st, args[0])
                return self.via(I, st, args[0])
            if m in ("any", "all", "find", "position", "find_map", "try_fold", "try_for_each", "cycle", "rev", "cmp", "eq",
                     "partial_cmp", "ne", "lt", "is_sorted", "min_by", "max_by"):
                if m in ("rev", "min_by", "max_by"):
                    self.drain(I, st, args[0])
                raise Undecided("%s of the input" % m)
            # everything else runs the input to its end
            return self.consume(I, st, f, args)
        if name in ("std::iter::FromIterator::from_iter", "std::iter::Extend::extend", "std::vec::Vec::<T, A>::extend_trusted") \
                or name.endswith("Extend<T>>::extend") or "from_iter" in name:
            return self.consume(I, st, f, args)
        if name == "std::clone::Clone::clone" and isinstance(args[0], Ref):
            raise Undecided("copy of the input")
        if name.startswith("itertools::Itertools::") and name.split("::")[-1] in ("collect_vec", "sorted", "counts", "join", "collect_tuple"):
            self.drain(I, st, [a for a in args if self.on(I, st, a)][0])
        return NotImplemented

    def consume(self, I, st, f, args):
        out = []
        for a in args:
            if self.on(I, st, a) and not isinstance(a, Closure):
                out.append(Stream(V.lit(self.drain(I, st, a))))
            else:
                out.append(a)
        m = I.models.get(f.get("impl")) or I.models.get(f["fn"]) or I.fallback(I, f)
        if m is None:
            raise Undecided("call of %s on the input" % f["fn"])
        return m(I, st, out, f)

    def drain(self, I, st, v):
        out = []
        while True:
            x, v = self.pull(I, st, v)
            if x.guard(1).is_zero():
                return out
            if x.guard(1) is not ONE:
                raise Undecided("item present under a condition")
            out.append(x.fields(1)[0])
            if len(out) > LIMIT:
                raise Endless("reads an endless input to its end")

    # -------------------------------------------------------- transition systems
    def num(self, p):
        if isinstance(p, T.Poly) and p.is_const():
            return int(p.cval())
        raise Undecided("symbolic position")

    def via(self, I, st, ref):
        from . import models as M
        return M.MODELS[IT + "next"](I, st, [ref], {"fn": IT + "next"}) if not self.lazy(I, st, ref) else \
            self.hook(I, st, {"fn": IT + "next"}, [ref])

    def lazy(self, I, st, v):
        while isinstance(v, Ref):
            v = I.read(st, v)
        return isinstance(v, Agg) and v.name.startswith("Lazy:")

    def pull(self, I, st, v):
        """-> (item as an Option, the iterator after it)"""
        self.steps += 1
        T._check_deadline()
        if isinstance(v, Agg) and v.name.startswith("Lazy:"):
            return self.step(I, st, v)
        if isinstance(v, Ref):
            return self.via(I, st, v), v
        from .interp import new_id
        from . import models as M
        cell = (new_id("d"), 0)
        if V.is_seq(v):
            v = Stream(v)
        if isinstance(v, Agg) and v.name not in self.stepwise and M.iter_impl(I, v) is not None and not self.on(I, st, v):
            # an iterator that does not read the input
            d, I.demand = I.demand, None
            try:
                s = M.as_seq(I, st, v)
                x = s.at(T.fresh("i", lo=0))
                # keep the iterator itself where its items have no closed form
                if not any(str(T.ATOMS[a]).startswith("item:") for a in T.atoms_rec(x)):
                    v = Stream(s)
                else:
                    self.stepwise.add(v.name)
            except (Undecided, AttributeError, TypeError):
                pass
            finally:
                I.demand = d
        st.store[cell] = v
        x = M.m_next(I, st, [Ref(cell)], {"fn": IT + "next"})
        return x, st.store.pop(cell)

    def call(self, I, st, fv, args):
        """-> (result, the function value after the call)"""
        if not isinstance(fv, Closure):
            return I.call_value(fv, args, st), fv
        from .interp import new_id
        cell = (new_id("d"), 0)
        st.store[cell] = fv
        x = I.call_value(Ref(cell), args, st)
        return x, st.store.pop(cell)

    def some(self, x):
        if not isinstance(x, Enum):
            raise Undecided("not an option")
        g = x.guard(1)
        if g is ONE:
            return True
        if g.is_zero():
            return False
        raise Undecided("item present under a condition")

    def step(self, I, st, v):
        k = v.name[5:]
        F = list(v.fields)
        mk = lambda *fs: Agg(v.name, fs)
        if k == "tape":
            p = self.num(F[0])
            if self.n is not None and p >= self.n:
                return V.NONE, v
            self.reads = max(self.reads, p + 1)
            if p > LIMIT:
                raise Endless("reads an endless input without bound")
            return V.some(self.mk(T.const(p))), mk(T.const(p + 1))
        if k == "map" or k == "inspect":
            x, s = self.pull(I, st, F[0])
            if not self.some(x):
                return x, mk(s, F[1])
            if k == "inspect":
                return x, mk(s, F[1])
            y, f = self.call(I, st, F[1], [x.fields(1)[0]])
            return V.some(y), mk(s, f)
        if k == "enumerate":
            x, s = self.pull(I, st, F[0])
            if not self.some(x):
                return x, mk(s, F[1])
            return V.some(V.tup(F[1], x.fields(1)[0])), mk(s, F[1] + 1)
        if k == "zip":
            x, s = self.pull(I, st, F[0])
            if not self.some(x):
                return x, mk(s, F[1])
            y, r = self.pull(I, st, F[1])
            if not self.some(y):
                return y, mk(s, r)
            return V.some(V.tup(x.fields(1)[0], y.fields(1)[0])), mk(s, r)
        if k == "chain":
            if F[2].is_zero():
                x, s = self.pull(I, st, F[0])
                if self.some(x):
                    return x, mk(s, F[1], ZERO)
                F[0] = s
            x, s = self.pull(I, st, F[1])
            return x, mk(F[0], s, ONE)
        if k == "take":
            n = self.num(F[1])
            if n == 0:
                return V.NONE, v
            x, s = self.pull(I, st, F[0])
            return x, mk(s, T.const(n - 1))
        if k == "skip":
            n, s = self.num(F[1]), F[0]
            for _ in range(n):
                x, s = self.pull(I, st, s)
                if not self.some(x):
                    return x, mk(s, ZERO)
            x, s = self.pull(I, st, s)
            return x, mk(s, ZERO)
        if k == "step_by":
            s = F[0]
            if not F[2].is_zero():
                for _ in range(self.num(F[1]) - 1):
                    x, s = self.pull(I, st, s)
                    if not self.some(x):
                        return x, mk(s, F[1], ONE)
            x, s = self.pull(I, st, s)
            return x, mk(s, F[1], ONE)
        if k == "peekable":
            if F[1] is ONE:
                return F[2], mk(F[0], ZERO, V.NONE)
            x, s = self.pull(I, st, F[0])
            return x, mk(s, ZERO, V.NONE)
        if k == "tuples":
            out, s = [], F[0]
            for _ in range(self.num(F[1])):
                x, s = self.pull(I, st, s)
                if not self.some(x):
                    return x, mk(s, F[1])
                out.append(x.fields(1)[0])
            return V.some(V.tup(*out)), mk(s, F[1])
        if k == "flat_map":
            s, f = F[0], F[1]
            cur = F[2] if len(F) > 2 else None
            for _ in range(LIMIT):
                if cur is not None:
                    x, cur = self.pull(I, st, cur)
                    if self.some(x):
                        return x, mk(s, f, cur)
                x, s = self.pull(I, st, s)
                if not self.some(x):
                    return x, mk(s, f)
                cur = x.fields(1)[0]
                if isinstance(f, (Closure, V.Fn)):
                    cur, f = self.call(I, st, f, [cur])
                cur = self.iter(I, st, cur)
            raise Endless("reads an endless input without yielding")
        if k in ("filter", "filter_map", "take_while", "map_while", "skip_while"):
            s, f = F[0], F[1]
            for _ in range(LIMIT):
                x, s = self.pull(I, st, s)
                if not self.some(x):
                    return x, mk(s, f)
                y = x.fields(1)[0]
                if k in ("filter_map", "map_while"):
                    y, f = self.call(I, st, f, [y])
                    if self.some(y) or k == "map_while":
                        return y, mk(s, f)
                    continue
                from .interp import new_id
                cell = (new_id("d"), 0)
                st.store[cell] = y
                g, f = self.call(I, st, f, [Ref(cell)])
                st.store.pop(cell)
                if g is ONE:
                    if k == "skip_while":
                        continue
                    return x, mk(s, f)
                if not g.is_zero():
                    raise Undecided("data-dependent selection")
                if k == "take_while":
                    return V.NONE, mk(s, f)
                if k == "skip_while":
                    return x, s
            raise Endless("reads an endless input without yielding")
        if k == "scan":
            x, s = self.pull(I, st, F[0])
            if not self.some(x):
                return x, mk(s, F[1], F[2])
            from .interp import new_id
            cell = (new_id("d"), 0)
            st.store[cell] = F[1]
            y, f = self.call(I, st, F[2], [Ref(cell), x.fields(1)[0]])
            self.some(y)
            return y, mk(s, st.store.pop(cell), f)
        if k == "from_fn":
            y, f = self.call(I, st, F[0], [])
            self.some(y)
            return y, mk(f)
        raise Undecided("adapter " + k)

    def iter(self, I, st, v):
        """the iterator an inner value of flat_map turns into"""
        from . import models as M
        if self.lazy(I, st, v) or isinstance(v, Ref) or self.on(I, st, v):
            return v
        return M.m_into_iter(I, st, [v], {"fn": "std::iter::IntoIterator::into_iter"})
