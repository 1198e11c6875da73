"""Symbolic values: scalars are terms, aggregates are immutable Python objects, sequences are functions of the index."""
import itertools
from .terms import *
from . import terms as TM


class Unsupported(Exception):
    """The construct is outside the verifier's reach (never evidence of a defect)."""


class V:
    __slots__ = ()


class Tup(V):
    __slots__ = ("xs",)

    def __init__(self, xs):
        self.xs = tuple(xs)

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.xs)) + ")"


UNIT = Tup(())


class Struct(V):
    __slots__ = ("name", "xs")

    def __init__(self, name, xs):
        self.name, self.xs = name, tuple(xs)

    def __repr__(self):
        return "%s{%s}" % (self.name, ", ".join(map(repr, self.xs)))


class En(V):
    """Enum value; tag is an integer term, pay maps a variant index to its field values."""
    __slots__ = ("ty", "tag", "pay")

    def __init__(self, ty, tag, pay):
        self.ty, self.tag, self.pay = ty, tag, pay

    def __repr__(self):
        return "%s#%s%s" % (self.ty, self.tag, self.pay)


def none():
    return En("Option", ZERO_I, {0: ()})


def some(x):
    return En("Option", ONE_I, {0: (), 1: (x,)})


class Byte(V):
    __slots__ = ("bits",)

    def __init__(self, bits):
        self.bits = tuple(bits)
        assert len(self.bits) == 8

    def __repr__(self):
        return "Byte%s" % (self.bits,)


def byte_const(n):
    return Byte([B((n >> i) & 1 == 1) for i in range(8)])


class Ref(V):
    """&mut place"""
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def __repr__(self):
        return "&mut c%s%s" % (self.cell, list(self.path))


class PRef(V):
    """shared reference: the (immutable) value it points to"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "&" + repr(self.v)


class Closure(V):
    __slots__ = ("ty", "xs")

    def __init__(self, ty, xs):
        self.ty, self.xs = ty, tuple(xs)

    def __repr__(self):
        return "closure%s" % (self.xs,)


class FnItem(V):
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "fn:" + self.path


class PyFn(V):
    """A Python-implemented callable: f(ex, args) -> value"""
    __slots__ = ("f", "deps")

    def __init__(self, f, deps=()):
        self.f = f
        self.deps = deps


class Opq(V):
    """Opaque library object; fields are values, kind identifies it."""
    __slots__ = ("kind", "xs")

    def __init__(self, kind, xs=()):
        self.kind, self.xs = kind, tuple(xs)

    def __repr__(self):
        return "%s%s" % (self.kind, self.xs)


_w = itertools.count(1)


class Seq(V):
    """A finite (len a term) or endless (len None) sequence.  items: concrete list; gen: index term -> value.
    facts: what may be assumed while gen is evaluated (the index is always in range)."""
    __slots__ = ("len", "items", "gen", "facts", "_j", "_t", "memo", "kind", "log")

    def __init__(self, n, gen=None, items=None, facts=None, kind="vec"):
        self.len, self.items, self.gen, self.kind = n, items, gen, kind
        self.facts = Ctx.facts if facts is None else facts
        self._j = self._t = None
        self.memo = {}
        self.log = None

    def __repr__(self):
        if self.items is not None:
            return "Seq%s" % (list(self.items),)
        return "Seq(len=%s, %s -> %s)" % (self.len, self._j, self._t)

    def template(self):
        """(j, value at j) for a fresh generic index, evaluated once under the creation facts"""
        if self._t is None:
            j = fresh("j")
            if self.items is not None:
                t = self.at(j)
            else:
                rng = [le(ZERO_I, j)] + ([lt(j, self.len)] if self.len is not None else [])
                with set_facts(tuple(self.facts) + tuple(rng)):
                    t = self.gen(j)
            self._j, self._t = j, t
        return self._j, self._t

    def at(self, i):
        if self.items is not None:
            if is_num(i):
                k = int(nval(i))
                if 0 <= k < len(self.items):
                    return self.items[k]
                raise Unsupported("index %d of %d" % (k, len(self.items)))
            if not self.items:
                raise Unsupported("index into an empty sequence")
            if len(self.items) > 64:
                raise Unsupported("symbolic index into a long literal")
            r = self.items[-1]
            for k in range(len(self.items) - 2, -1, -1):
                r = merge(eq(i, num(k)), self.items[k], r)
            return r
        if is_num(i):
            key = i
            r = self.memo.get(key)
            if r is None:
                rng = [lt(i, self.len)] if self.len is not None else []
                with set_facts(tuple(self.facts) + tuple(rng)):
                    r = self.gen(i)
                self.memo[key] = r
            return resimp(r) if False else r
        key = (i, Ctx.fs)
        r = self.memo.get(key)
        if r is None:
            j, t = self.template()
            r = substv(t, {j: i})
            if len(self.memo) > 400:
                self.memo.clear()
            self.memo[key] = r
        return r

    def concrete(self):
        return self.items is not None

    def to_items(self, limit=64):
        if self.items is not None:
            return list(self.items)
        if self.len is not None and is_num(self.len) and nval(self.len) <= limit:
            return [self.at(num(k)) for k in range(int(nval(self.len)))]
        return None


def lit(items, kind="vec"):
    items = list(items)
    return Seq(num(len(items)), items=items, kind=kind)


class It(V):
    """An iterator: the sequence still to come starts at pos.  org: (Ref to an underlying iterator) when by reference."""
    __slots__ = ("seq", "pos", "back", "org")

    def __init__(self, seq, pos=ZERO_I, back=None, org=None):
        self.seq, self.pos = seq, pos
        self.back = back
        self.org = org

    def __repr__(self):
        return "It(%r @ %s)" % (self.seq, self.pos)

    def rest(self):
        """the remaining elements as a Seq"""
        return drop(self.seq, self.pos)


def drop(s, k):
    if is_num(k) and nval(k) == 0:
        return s
    if s.items is not None and is_num(k):
        return lit(s.items[int(nval(k)):], s.kind)
    n = None if s.len is None else maxi(sub(s.len, k), ZERO_I)
    return Seq(n, gen=lambda i: s.at(add(i, k)), kind=s.kind)


def mini(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    if entails(le(a, b)):
        return a
    if entails(le(b, a)):
        return b
    return ite(le(a, b), a, b)


def maxi(a, b):
    if a is b:
        return a
    if entails(le(a, b)):
        return b
    if entails(le(b, a)):
        return a
    return ite(le(b, a), a, b)


# ---------------------------------------------------------------- generic traversal
def mapv(v, f):
    """Apply f to every term inside v (lazily inside generic sequences)."""
    if isinstance(v, T):
        return f(v)
    if isinstance(v, Tup):
        return Tup([mapv(x, f) for x in v.xs]) if v.xs else v
    if isinstance(v, Struct):
        return Struct(v.name, [mapv(x, f) for x in v.xs])
    if isinstance(v, En):
        return En(v.ty, f(v.tag), {k: tuple(mapv(x, f) for x in xs) for k, xs in v.pay.items()})
    if isinstance(v, Byte):
        return Byte([f(b) for b in v.bits])
    if isinstance(v, Seq):
        if v.items is not None:
            return Seq(f(v.len), items=[mapv(x, f) for x in v.items], kind=v.kind)
        raise AssertionError("use substv for generic sequences")
    if isinstance(v, It):
        return It(mapv(v.seq, f), f(v.pos), v.back, v.org)
    if isinstance(v, PRef):
        return PRef(mapv(v.v, f))
    if isinstance(v, Ref):
        return Ref(v.cell, [p if not (isinstance(p, tuple) and p[0] in "is") else
                            ((p[0],) + tuple(f(x) if isinstance(x, T) else x for x in p[1:])) for p in v.path])
    if isinstance(v, Closure):
        return Closure(v.ty, [mapv(x, f) for x in v.xs])
    if isinstance(v, Opq):
        return Opq(v.kind, [mapv(x, f) if isinstance(x, (V, T)) else x for x in v.xs])
    if isinstance(v, (FnItem, PyFn)) or v is None:
        return v
    raise AssertionError("mapv %r" % (v,))


def substv(v, m):
    if not m:
        return v
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, Seq):
        if v.items is not None:
            return Seq(subst(v.len, m), items=[substv(x, m) for x in v.items], kind=v.kind)
        keys = set(m)
        n = None if v.len is None else subst(v.len, m)

        def gen(i, v=v, m=m):
            if is_num(i) and False:
                return substv(v.at(i), m)
            j, t = v.template()
            mm = dict(m)
            mm[j] = i
            return substv(t, mm)
        fs = tuple(subst(f, m) for f in v.facts)
        return Seq(n, gen=gen, facts=tuple(fs) + tuple(x for x in Ctx.facts), kind=v.kind)
    if isinstance(v, It):
        return It(substv(v.seq, m), subst(v.pos, m), v.back, v.org)
    if isinstance(v, Tup):
        return Tup([substv(x, m) for x in v.xs]) if v.xs else v
    if isinstance(v, Struct):
        return Struct(v.name, [substv(x, m) for x in v.xs])
    if isinstance(v, En):
        return En(v.ty, subst(v.tag, m), {k: tuple(substv(x, m) for x in xs) for k, xs in v.pay.items()})
    if isinstance(v, PRef):
        return PRef(substv(v.v, m))
    if isinstance(v, Closure):
        return Closure(v.ty, [substv(x, m) for x in v.xs])
    if isinstance(v, Opq):
        return Opq(v.kind, [substv(x, m) if isinstance(x, (V, T)) else x for x in v.xs])
    return mapv(v, lambda t: subst(t, m))


def resimp(v):
    if isinstance(v, (Seq, It)):
        return v
    return mapv(v, resimplify) if not _has_seq(v) else v


def _has_seq(v):
    if isinstance(v, (Seq, It)):
        return True
    if isinstance(v, (Tup, Struct, Closure, Opq)):
        return any(_has_seq(x) for x in v.xs if isinstance(x, V))
    if isinstance(v, En):
        return any(_has_seq(x) for xs in v.pay.values() for x in xs)
    if isinstance(v, PRef):
        return _has_seq(v.v)
    return False


def fvv(v):
    """free variables of a value (templates included)"""
    if isinstance(v, T):
        return fv(v)
    if isinstance(v, Seq):
        s = set() if v.len is None else set(fv(v.len))
        if v.items is not None:
            for x in v.items:
                s |= fvv(x)
        else:
            j, t = v.template()
            s |= fvv(t) - {j}
        return s
    if isinstance(v, It):
        return fvv(v.seq) | fv(v.pos)
    s = set()
    if isinstance(v, (Tup, Struct, Closure, Opq)):
        for x in v.xs:
            if isinstance(x, (V, T)):
                s |= fvv(x)
    elif isinstance(v, En):
        s |= fv(v.tag)
        for xs in v.pay.values():
            for x in xs:
                s |= fvv(x)
    elif isinstance(v, PRef):
        s |= fvv(v.v)
    elif isinstance(v, Byte):
        for b in v.bits:
            s |= fv(b)
    elif isinstance(v, Ref):
        for p in v.path:
            if isinstance(p, tuple):
                for x in p[1:]:
                    if isinstance(x, T):
                        s |= fv(x)
    return s


# ---------------------------------------------------------------- merging
class NoMerge(Unsupported):
    pass


def merge(c, a, b):
    """value that is a when c holds and b otherwise"""
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, T) and isinstance(b, T):
        if (a.sort == "B") != (b.sort == "B"):
            raise NoMerge("sorts")
        return ite(c, a, b)
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.xs) == len(b.xs):
        return Tup([merge(c, x, y) for x, y in zip(a.xs, b.xs)])
    if isinstance(a, Struct) and isinstance(b, Struct) and a.name == b.name and len(a.xs) == len(b.xs):
        return Struct(a.name, [merge(c, x, y) for x, y in zip(a.xs, b.xs)])
    if isinstance(a, En) and isinstance(b, En) and a.ty == b.ty:
        pay = {}
        for k in set(a.pay) | set(b.pay):
            if k in a.pay and k in b.pay:
                pay[k] = tuple(merge(c, x, y) for x, y in zip(a.pay[k], b.pay[k]))
            else:
                pay[k] = a.pay.get(k, b.pay.get(k))
        return En(a.ty, ite(c, a.tag, b.tag), pay)
    if isinstance(a, Byte) and isinstance(b, Byte):
        return Byte([ite(c, x, y) for x, y in zip(a.bits, b.bits)])
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            return Seq(a.len, items=[merge(c, x, y) for x, y in zip(a.items, b.items)], kind=a.kind)
        if (a.len is None) != (b.len is None):
            raise NoMerge("finite/endless")
        if seq_same(a, b):
            return a
        n = None if a.len is None else ite(c, a.len, b.len)
        la, lb = a.len, b.len

        def gen(i):
            if la is not None and is_num(la) and nval(la) == 0:
                return b.at(i)
            if lb is not None and is_num(lb) and nval(lb) == 0:
                return a.at(i)
            if entails(c):
                return a.at(i)
            if entails(bnot(c)):
                return b.at(i)
            with with_facts([c]):
                x = a.at(i)
            with with_facts([bnot(c)]):
                y = b.at(i)
            return merge(c, x, y)
        return Seq(n, gen=gen, kind=a.kind)
    if isinstance(a, It) and isinstance(b, It):
        return It(merge(c, a.seq, b.seq), ite(c, a.pos, b.pos), a.back, a.org)
    if isinstance(a, PRef) and isinstance(b, PRef):
        return PRef(merge(c, a.v, b.v))
    if isinstance(a, Ref) and isinstance(b, Ref) and a.cell == b.cell and len(a.path) == len(b.path):
        path = []
        for p, q in zip(a.path, b.path):
            if p == q:
                path.append(p)
            elif isinstance(p, tuple) and isinstance(q, tuple) and p[0] == q[0] == "i":
                path.append(("i", ite(c, p[1], q[1])))
            else:
                raise NoMerge("references")
        return Ref(a.cell, path)
    if isinstance(a, Closure) and isinstance(b, Closure) and a.ty == b.ty:
        return Closure(a.ty, [merge(c, x, y) for x, y in zip(a.xs, b.xs)])
    if isinstance(a, Opq) and isinstance(b, Opq) and a.kind == b.kind and len(a.xs) == len(b.xs):
        return Opq(a.kind, [x if x is y or x == y else merge(c, x, y) for x, y in zip(a.xs, b.xs)])
    if isinstance(a, FnItem) and isinstance(b, FnItem) and a.path == b.path:
        return a
    raise NoMerge("%s / %s" % (type(a).__name__, type(b).__name__))


_CV = {}


def canon_template(s):
    """template of a generic sequence with a canonical index variable"""
    j, t = s.template()
    k = "%k"
    cv = _CV.setdefault(k, var(k))
    return substv(t, {j: cv})


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, T):
        return False
    if isinstance(a, (Tup, Struct, Closure)):
        return len(a.xs) == len(b.xs) and all(same(x, y) for x, y in zip(a.xs, b.xs))
    if isinstance(a, Opq):
        return a.kind == b.kind and len(a.xs) == len(b.xs) and all((x == y) if not isinstance(x, V) else same(x, y) for x, y in zip(a.xs, b.xs))
    if isinstance(a, En):
        return a.tag is b.tag and set(a.pay) == set(b.pay) and all(same(x, y) for k in a.pay for x, y in zip(a.pay[k], b.pay[k]))
    if isinstance(a, Byte):
        return a.bits == b.bits
    if isinstance(a, Seq):
        return seq_same(a, b)
    if isinstance(a, It):
        return a.pos is b.pos and same(a.seq, b.seq)
    if isinstance(a, PRef):
        return same(a.v, b.v)
    if isinstance(a, Ref):
        return a.cell == b.cell and a.path == b.path
    if isinstance(a, FnItem):
        return a.path == b.path
    return False


def seq_same(a, b):
    if a is b:
        return True
    if a.len is not b.len:
        return False
    if a.items is not None and b.items is not None:
        return all(same(x, y) for x, y in zip(a.items, b.items))
    if a.len is not None and is_num(a.len) and nval(a.len) == 0:
        return True
    try:
        return same(canon_template(a), canon_template(b))
    except Unsupported:
        return False


# ---------------------------------------------------------------- paths inside values
def getp(v, path, ex=None, st=None):
    for p in path:
        v = get1(v, p)
    return v


def get1(v, p):
    if isinstance(p, int):
        if isinstance(v, (Tup, Struct, Closure)):
            return v.xs[p]
        if isinstance(v, Opq):
            return v.xs[p]
        if isinstance(v, Seq) and v.items is not None:
            return v.items[p]
        raise Unsupported("field %d of %s" % (p, type(v).__name__))
    if p == "pos":
        return v.pos
    if p == "pr":
        return v.v
    if p == "tag":
        return v.tag
    k = p[0]
    if k == "v":
        if not isinstance(v, En):
            raise Unsupported("variant of %s" % type(v).__name__)
        if p[1] not in v.pay:
            raise Unsupported("payload of variant %d absent" % p[1])
        return Tup(v.pay[p[1]])
    if k == "i":
        if isinstance(v, Seq):
            return v.at(p[1])
        raise Unsupported("index of %s" % type(v).__name__)
    if k == "s":
        return subseq(v, p[1], p[2])
    raise Unsupported("projection %r" % (p,))


def subseq(s, a, b):
    """s[a..b] (b None: to the end)"""
    if not isinstance(s, Seq):
        raise Unsupported("slice of %s" % type(s).__name__)
    if b is None:
        b = s.len
    if s.items is not None and is_num(a) and is_num(b):
        return lit(s.items[int(nval(a)):int(nval(b))], s.kind)
    if is_num(a) and nval(a) == 0 and b is s.len:
        return s
    return Seq(sub(b, a), gen=lambda i: s.at(add(i, a)), kind=s.kind)


def setp(v, path, x):
    if not path:
        return x
    p, rest = path[0], path[1:]
    if isinstance(p, int):
        if isinstance(v, Tup):
            xs = list(v.xs)
            xs[p] = setp(xs[p], rest, x)
            return Tup(xs)
        if isinstance(v, Struct):
            xs = list(v.xs)
            xs[p] = setp(xs[p], rest, x)
            return Struct(v.name, xs)
        if isinstance(v, Closure):
            xs = list(v.xs)
            xs[p] = setp(xs[p], rest, x)
            return Closure(v.ty, xs)
        if isinstance(v, Opq):
            xs = list(v.xs)
            xs[p] = setp(xs[p], rest, x)
            return Opq(v.kind, xs)
        raise Unsupported("field update of %s" % type(v).__name__)
    if p == "pos":
        return It(v.seq, x, v.back, v.org)
    if p == "pr":
        return PRef(setp(v.v, rest, x))
    if p == "tag":
        return En(v.ty, x, v.pay)
    k = p[0]
    if k == "v":
        t = Tup(v.pay[p[1]])
        t2 = setp(t, rest, x)
        pay = dict(v.pay)
        pay[p[1]] = t2.xs
        return En(v.ty, v.tag, pay)
    if k == "i":
        i = p[1]
        old = None
        if rest:
            x = setp(v.at(i), rest, x)
        return store(v, i, x)
    if k == "s":
        a, b = p[1], p[2]
        if b is None:
            b = v.len
        inner = setp(subseq(v, a, b), rest, x)
        if v.items is not None and inner.items is not None and is_num(a) and is_num(b):
            its = list(v.items)
            its[int(nval(a)):int(nval(b))] = inner.items
            return lit(its, v.kind)
        lo, hi = a, b

        def gen(i):
            c = band(le(lo, i), lt(i, hi))
            if entails(c):
                return inner.at(sub(i, lo))
            if entails(bnot(c)):
                return v.at(i)
            with with_facts([c]):
                y = inner.at(sub(i, lo))
            return merge(c, y, v.at(i))
        return Seq(v.len, gen=gen, kind=v.kind)
    raise Unsupported("update through %r" % (p,))


def store(s, i, x):
    if not isinstance(s, Seq):
        raise Unsupported("store into %s" % type(s).__name__)
    if s.items is not None:
        if is_num(i):
            its = list(s.items)
            its[int(nval(i))] = x
            return lit(its, s.kind)
        if len(s.items) <= 64:
            return lit([merge(eq(i, num(k)), x, y) for k, y in enumerate(s.items)], s.kind)

    def gen(j):
        c = eq(i, j)
        if c is TRUE or entails(c):
            return x
        if c is FALSE or entails(bnot(c)):
            return s.at(j)
        return merge(c, x, s.at(j))
    return Seq(s.len, gen=gen, kind=s.kind)
