"""Hash-consed term language with a built-in polynomial normal form.

Sorts: 'I' (mathematical integers), 'R' (mathematical reals), 'B' (booleans), anything else: an uninterpreted sort.
Arithmetic terms are kept as Laurent polynomials over atoms, so two terms that are equal by ring reasoning are the
same object.  x/y is normalised as x*y^-1: every denominator is assumed non-zero (stated in the trusted base).
"""
from fractions import Fraction
import itertools

_table = {}
_ids = itertools.count(1)


class T:
    __slots__ = ("op", "args", "sort", "id", "_fv", "_h")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        t.id = next(_ids)
        t._fv = None
        t._h = None
        _table[key] = t
    return t


TRUE = mk("bool", (True,), "B")
FALSE = mk("bool", (False,), "B")


def B(b):
    return TRUE if b else FALSE


def num(x, sort="I"):
    return mk("num", (Fraction(x),), sort)


ZERO_I, ONE_I = num(0), num(1)
ZERO_R, ONE_R = num(0, "R"), num(1, "R")

_fresh = itertools.count(1)


def var(name, sort="I"):
    return mk("var", (name,), sort)


def fresh(prefix, sort="I"):
    return var("%s!%d" % (prefix, next(_fresh)), sort)


def is_num(t):
    return t.op == "num"


def nval(t):
    return t.args[0]


# ---------------------------------------------------------------- polynomials
def to_poly(t):
    """dict: monomial (tuple of (atom, exp) sorted by atom id) -> Fraction"""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args)
    return {((t, 1),): Fraction(1)}


def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def from_poly(p, sort):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return num(0, sort)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c, sort)
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].sort == sort:
            return m[0][0]
    return mk("poly", tuple(sorted(p.items(), key=lambda mc: _mono_key(mc[0]))), sort)


def _join(a, b):
    return "R" if "R" in (a.sort, b.sort) else "I"


def add(*ts):
    sort = "I"
    p = {}
    for t in ts:
        if t.sort == "R":
            sort = "R"
        for m, c in to_poly(t).items():
            p[m] = p.get(m, 0) + c
    return from_poly(p, sort)


def neg(t):
    return from_poly({m: -c for m, c in to_poly(t).items()}, t.sort)


def sub(a, b):
    return add(a, neg(b))


def _mul_mono(m1, m2):
    d = dict(m1)
    extra = None
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    out = []
    coef = Fraction(1)
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == "app" and a.args[0] == "sqrt" and abs(e) >= 2 and is_num(a.args[1][0]):
            k = e // 2 if e > 0 else -((-e) // 2)
            coef *= nval(a.args[1][0]) ** k
            e -= 2 * k
            if e == 0:
                continue
        if a.op == "ite" and abs(e) >= 2 and is_num(a.args[1]) and is_num(a.args[2]) and abs(nval(a.args[1])) == abs(nval(a.args[2])) != 0:
            # (if c then x else -x)^2 = x^2
            k = e // 2 if e > 0 else -((-e) // 2)
            coef *= Fraction(nval(a.args[1])) ** (2 * k)
            e -= 2 * k
            if e == 0:
                continue
        if a.op == "inv" and e < 0:
            # inv(p)^-1 is p again
            extra = (extra or []) + [(a.args[0], -e)]
            continue
        out.append((a, e))
    out.sort(key=lambda ae: ae[0].id)
    return tuple(out), coef, extra


def mul(*ts):
    sort = "I"
    p = {(): Fraction(1)}
    for t in ts:
        if t.sort == "R":
            sort = "R"
        q = to_poly(t)
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m, cc, extra = _mul_mono(m1, m2)
                if extra is None:
                    r[m] = r.get(m, 0) + c1 * c2 * cc
                else:
                    x = from_poly({m: c1 * c2 * cc}, "R")
                    for b, e in extra:
                        for _ in range(e):
                            x = mul(x, b)
                    for m3, c3 in to_poly(x).items():
                        r[m3] = r.get(m3, 0) + c3
        p = {m: c for m, c in r.items() if c != 0}
        if len(p) > 4000:
            raise OverflowError("polynomial too large")
    return from_poly(p, sort)


def powi(t, n):
    if n < 0:
        return inv(powi(t, -n))
    r = num(1, t.sort)
    for _ in range(n):
        r = mul(r, t)
    return r


def _content(p):
    """Pull out of a multi-term polynomial the leading coefficient and the common monomial."""
    items = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))
    lead = items[0][1]
    common = None
    for m, _ in items:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d and (e > 0) == (d[a] > 0)}
    common = {a: e for a, e in (common or {}).items() if e != 0}
    return lead, tuple(sorted(common.items(), key=lambda ae: ae[0].id))


def inv(t):
    t = toreal(t)
    p = to_poly(t)
    if not p:
        return mk("app", ("inf", (), "R"), "R")
    if len(p) == 1:
        (m, c), = p.items()
        r = num(Fraction(1) / c, "R")
        for a, e in m:
            if a.op == "inv":
                for _ in range(abs(e)):
                    r = mul(r, a.args[0] if e > 0 else a)
            else:
                r = mul(r, from_poly({((a, -e),): Fraction(1)}, "R"))
        return r
    lead, common = _content(p)
    common = dict(common)
    low = {}
    for m in p:
        for a, e in m:
            if e < 0 and a not in common:
                low[a] = min(e, low.get(a, 0))
    for a, e in low.items():
        # a divisor in some terms only: multiply through where it is known not to vanish
        if a.sort in "IR" and (a is PI or entails(lt(num(0, a.sort), a)) or entails(lt(a, num(0, a.sort)))):
            common[a] = e
    common = tuple(sorted(common.items(), key=lambda ae: ae[0].id))
    cm = {a: -e for a, e in common}
    q = {}
    for m, c in p.items():
        mm, cc, _ = _mul_mono(m, tuple(sorted(cm.items(), key=lambda ae: ae[0].id)))
        q[mm] = c * cc
    lead = _content(q)[0]
    core = from_poly({m: c / lead for m, c in q.items()}, "R")
    outer = from_poly({tuple(sorted(cm.items(), key=lambda ae: ae[0].id)): Fraction(1) / lead}, "R")
    return mul(outer, mk("inv", (core,), "R"))


def rdiv(a, b):
    return mul(toreal(a), inv(b))


def toreal(t):
    if t.sort == "R":
        return t
    if t.op == "ite":
        pass
    return from_poly(to_poly(t), "R")


def isreal_int(t):
    """If the real-sorted t is syntactically an integer polynomial, return it at sort I."""
    if t.sort == "I":
        return t
    p = to_poly(t)
    for m, c in p.items():
        if c.denominator != 1:
            return None
        for a, e in m:
            if a.sort != "I" or e < 0:
                return None
    return from_poly(p, "I")


# ---------------------------------------------------------------- context dependent simplification
SPLIT = ()      # the case of the specification's parameters under consideration (see spec.Ctx2.guard)


class Ctx:
    """The facts under which terms are being built; `oracle(facts, goal)` decides entailment."""
    facts = ()
    oracle = None
    fs = frozenset()


def with_facts(extra):
    return _With(extra)


class _With:
    def __init__(self, extra):
        self.extra = tuple(e for e in extra if e is not TRUE)

    def __enter__(self):
        self.saved = (Ctx.facts, Ctx.fs)
        if self.extra:
            new = []
            fs = set(Ctx.fs)
            for e in self.extra:
                for c in (e.args if e.op == "and" else (e,)):
                    if c not in fs and c is not TRUE:
                        fs.add(c)
                        new.append(c)
            Ctx.facts = Ctx.facts + tuple(new)
            Ctx.fs = frozenset(fs)

    def __exit__(self, *a):
        Ctx.facts, Ctx.fs = self.saved


class set_facts:
    def __init__(self, facts):
        self.f = facts

    def __enter__(self):
        self.saved = (Ctx.facts, Ctx.fs)
        fl = []
        seen = set()
        for e in SPLIT + tuple(self.f):
            for c in (e.args if e.op == "and" else (e,)):
                if c is not TRUE and c not in seen:
                    seen.add(c)
                    fl.append(c)
        Ctx.facts, Ctx.fs = tuple(fl), frozenset(seen)

    def __exit__(self, *a):
        Ctx.facts, Ctx.fs = self.saved


def entails(g):
    if g is TRUE or g in Ctx.fs:
        return True
    if FALSE in Ctx.fs:
        return True
    if Ctx.oracle is None:
        return g is TRUE
    return Ctx.oracle(Ctx.facts, g)


def idiv(a, b):
    """Euclidean quotient of integers, b > 0 assumed."""
    if is_num(b) and nval(b) == 1:
        return a
    if is_num(a) and is_num(b) and nval(b) != 0:
        return num(nval(a) // nval(b))
    q, r = _split(a, b)
    if r is not None:
        if is_num(r) and nval(r) == 0:
            return q
        if is_num(b) and is_num(r) and 0 <= nval(r) < nval(b):
            return q
        if entails(le(ZERO_I, r)) and entails(lt(r, b)):
            return q
        if not (is_num(q) and nval(q) == 0):
            # partially resolved: (b*q + r) div b = q + r div b
            return add(q, idiv(r, b))
        # r may be one or two periods off
        if not is_num(r) or not is_num(b):
            for k in (1, 2, -1):
                rr = sub(r, mul(num(k), b))
                if entails(le(ZERO_I, rr)) and entails(lt(rr, b)):
                    return num(k)
    # (x div c) div b = x div (c*b) for c, b > 0
    if a.op == "idiv" and is_num(b) and is_num(a.args[1]):
        return idiv(a.args[0], mul(a.args[1], b))
    return mk("idiv", (a, b), "I")


def imod(a, b):
    if is_num(b) and nval(b) == 1:
        return ZERO_I
    if is_num(a) and is_num(b) and nval(b) != 0:
        return num(nval(a) % nval(b))
    q, r = _split(a, b)
    if r is not None:
        if is_num(r) and nval(r) == 0:
            return ZERO_I
        if is_num(b) and is_num(r) and 0 <= nval(r) < nval(b):
            return r
        if entails(le(ZERO_I, r)) and entails(lt(r, b)):
            return r
        # r may still be one or two periods off
        for k in (1, 2, -1):
            rr = sub(r, mul(num(k), b))
            if not is_num(rr) and entails(le(ZERO_I, rr)) and entails(lt(rr, b)):
                return rr
        if r is not a:
            return imod(r, b)
    return mk("mod", (a, b), "I")


def _split(a, b):
    """a = b*q + r with q collecting the monomials of a divisible by b (b a monomial or number)."""
    pb = to_poly(b)
    if len(pb) != 1:
        # polynomial divisor: only the exact multiple is recognised
        return _split_poly(a, b)
    (mb, cb), = pb.items()
    q, r = {}, {}
    for m, c in to_poly(a).items():
        d = dict(m)
        ok = all(d.get(x, 0) >= e for x, e in mb)
        if ok:
            k = c / cb
            if mb == ():
                fl = Fraction(k.numerator // k.denominator)
                rest = k - fl
            else:
                if k.denominator != 1:
                    ok = False
                fl, rest = k, 0
        if ok:
            if fl != 0:
                mm = {x: e for x, e in d.items()}
                for x, e in mb:
                    mm[x] -= e
                q[tuple(sorted(((x, e) for x, e in mm.items() if e), key=lambda ae: ae[0].id))] = fl
            if rest:
                r[m] = rest * cb
        else:
            r[m] = c
    return from_poly(q, "I"), from_poly(r, "I")


def _split_poly(a, b):
    """Division by a multi-term polynomial, by repeatedly cancelling the leading monomial."""
    q = ZERO_I
    r = a
    pb = to_poly(b)
    cands = sorted(((m, c) for m, c in pb.items() if m != ()), key=lambda mc: (-sum(e for _, e in mc[0]), _mono_key(mc[0])))
    if not cands:
        return ZERO_I, a
    mb, cb = cands[0]
    for _ in range(8):
        pr = to_poly(r)
        hit = None
        for m, c in sorted(pr.items(), key=lambda mc: (-sum(e for _, e in mc[0]), _mono_key(mc[0]))):
            d = dict(m)
            if all(d.get(x, 0) >= e for x, e in mb) and (c / cb).denominator == 1:
                hit = (m, c)
                break
        if not hit:
            break
        d = dict(hit[0])
        for x, e in mb:
            d[x] -= e
        f = from_poly({tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda ae: ae[0].id)): hit[1] / cb}, "I")
        q = add(q, f)
        r = sub(r, mul(f, b))
    return q, r


# ---------------------------------------------------------------- booleans
def band(*ts):
    out = []
    seen = set()
    for t in ts:
        for x in (t.args if t.op == "and" else (t,)):
            if x is FALSE:
                return FALSE
            if x is TRUE or x in seen:
                continue
            seen.add(x)
            out.append(x)
    for x in out:
        if bnot(x) in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(sorted(out, key=lambda t: t.id)), "B")


def bor(*ts):
    out = []
    seen = set()
    for t in ts:
        for x in (t.args if t.op == "or" else (t,)):
            if x is TRUE:
                return TRUE
            if x is FALSE or x in seen:
                continue
            seen.add(x)
            out.append(x)
    for x in out:
        if bnot(x) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(sorted(out, key=lambda t: t.id)), "B")


_NOT = {}


def bnot(t):
    r = _NOT.get(t)
    if r is None:
        r = _bnot(t)
        if len(_NOT) > 300000:
            _NOT.clear()
        _NOT[t] = r
    return r


def _bnot(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "le0":
        p = t.args[0]
        if p.sort == "I":
            return le0(add(neg(p), ONE_I))
        return lt0(neg(p))
    if t.op == "lt0":
        return le0(neg(t.args[0]))
    if t.op == "and":
        return bor(*[bnot(x) for x in t.args])
    if t.op == "or":
        return band(*[bnot(x) for x in t.args])
    return mk("not", (t,), "B")


def implies(a, b):
    return bor(bnot(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return bnot(b)
    if b is FALSE:
        return bnot(a)
    if a is bnot(b):
        return FALSE
    # parity normal form: the leaves of nested equivalences, pairs cancelled, in a fixed order
    flip = False
    leaves = set()
    work = [a, b]
    while work:
        x = work.pop()
        if x is TRUE:
            continue
        if x is FALSE:
            flip = not flip
            continue
        if x.op == "not" and x.args[0].op == "iff":
            flip = not flip
            x = x.args[0]
        if x.op == "iff":
            work.extend(x.args)
            continue
        nx = bnot(x)
        if nx.id < x.id:
            x, flip = nx, not flip
        if x in leaves:
            leaves.discard(x)
        else:
            leaves.add(x)
    if not leaves:
        return B(not flip)
    ls = sorted(leaves, key=lambda t: t.id)
    r = ls[0]
    for x in ls[1:]:
        r = mk("iff", (r, x), "B")
    if not flip:
        return r
    return mk("not", (r,), "B") if r.op == "iff" else bnot(r)


def bxor(a, b):
    return bnot(iff(a, b))


def _norm_scale(p):
    """Scale a polynomial by a positive constant to coprime integer coefficients."""
    from math import gcd
    d = 1
    for c in p.values():
        d = d * c.denominator // gcd(d, c.denominator)
    g = 0
    for c in p.values():
        g = gcd(g, abs(int(c * d)))
    g = g or 1
    f = Fraction(d, g)
    return {m: c * f for m, c in p.items()}


def le0(t):
    p = to_poly(t)
    if not p:
        return TRUE
    if list(p) == [()]:
        return B(p[()] <= 0)
    if t.sort == "I":
        # coefficients integral: divide by gcd of the non-constant part and tighten
        from math import gcd
        g = 0
        for m, c in p.items():
            if m != ():
                g = gcd(g, abs(int(c)))
        if g > 1:
            k = p.get((), Fraction(0))
            q = {m: c / g for m, c in p.items() if m != ()}
            # sum + k <= 0  ->  sum/g <= floor(-k/g)
            kk = -(Fraction(-k, g).__floor__())
            if kk:
                q[()] = Fraction(kk)
            p = q
        return mk("le0", (from_poly(p, "I"),), "B")
    return mk("le0", (from_poly(_norm_scale(p), "R"),), "B")


def lt0(t):
    p = to_poly(t)
    if not p:
        return FALSE
    if list(p) == [()]:
        return B(p[()] < 0)
    if t.sort == "I":
        return le0(add(t, ONE_I))
    i = isreal_int(from_poly(_norm_scale(p), "R"))
    return mk("lt0", (from_poly(_norm_scale(p), "R"),), "B")


def le(a, b):
    d = sub(a, b)
    if d.sort == "R":
        i = isreal_int(from_poly(_norm_scale(to_poly(d)), "R")) if to_poly(d) else None
        if i is not None:
            return le0(i)
    return le0(d)


def lt(a, b):
    d = sub(a, b)
    if d.sort == "R":
        i = isreal_int(from_poly(_norm_scale(to_poly(d)), "R")) if to_poly(d) else None
        if i is not None:
            return lt0(i)
    return lt0(d)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


EQ_HOOKS = []       # (application x, constant k) -> a condition equivalent to x = k, or (y, k2) with x = k iff y = k2, or None


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B":
        return iff(a, b)
    if a.sort in ("I", "R") or b.sort in ("I", "R"):
        d = sub(a, b)
        p = to_poly(d)
        if not p:
            return TRUE
        if list(p) == [()]:
            return FALSE
        den = {}
        for m in p:
            for x, e in m:
                if e < 0:
                    den[x] = max(den.get(x, 0), -e)
        if den:
            # denominators are non-zero: clear them
            d = mul(d, from_poly({tuple(sorted(den.items(), key=lambda ae: ae[0].id)): Fraction(1)}, "R"))
            p = to_poly(d)
        p = _norm_scale(p)
        lead = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))
        lc = next(c for m, c in lead if m != ())
        if lc < 0:
            p = {m: -c for m, c in p.items()}
        s = d.sort
        t = from_poly(p, s)
        if s == "R":
            i = isreal_int(t)
            if i is not None:
                t = i
        if t.sort == "I":
            # a common factor in the non constant part that does not divide the constant
            from math import gcd
            pi = to_poly(t)
            g = 0
            for m, c in pi.items():
                if m != ():
                    g = gcd(g, abs(int(c)))
            if g > 1 and int(pi.get((), 0)) % g != 0:
                return FALSE
            if EQ_HOOKS and len(pi) <= 2:
                for m, c in pi.items():
                    if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and abs(c) == 1:
                        for hook in EQ_HOOKS:
                            r = hook(m[0][0], int(-pi.get((), 0) * c))
                            if isinstance(r, T):
                                return r
                            if r is not None:
                                return eq(r[0], num(r[1]))
        return mk("eq0", (t,), "B")
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), "B")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        if a is TRUE:
            return bor(c, b)
        if a is FALSE:
            return band(bnot(c), b)
        if b is TRUE:
            return bor(bnot(c), a)
        if b is FALSE:
            return band(c, a)
        if a is c:
            return bor(c, b)
        if b is c:
            return band(c, a)
        if a is bnot(b):
            return iff(c, a)
    if a.sort != b.sort:
        a, b = toreal(a), toreal(b)
    nc = bnot(c)
    if nc.op != "not" and (c.op == "not" or nc.id < c.id):
        c, a, b = nc, b, a
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if c.op == "eq0" and a.sort != "B":
        # if v = e then b[e/v] else b  is  b
        for v in fv(c):
            p = to_poly(c.args[0])
            k = p.get(((v, 1),))
            if k is not None and abs(k) == 1 and v.sort == "I" and v in fv(b):
                e = from_poly({m: -x / k for m, x in p.items() if m != ((v, 1),)}, "I")
                if v not in fv(e) and subst(b, {v: e}) is a:
                    return b
    r = _case_chain(c, a, b)
    if r is not None:
        return r
    return mk("ite", (c, a, b), a.sort)


CASE_RANGE = {}     # name of an integer function -> (arguments -> n): its values lie in 0 .. n-1 (for arguments in range)


def _case_of(c):
    """x = k, x an application with a known finite range -> (x, k, n)"""
    if c.op != "eq0":
        return None
    p = to_poly(c.args[0])
    x = None
    for m, k in p.items():
        if m == ():
            continue
        if x is not None or len(m) != 1 or m[0][1] != 1 or m[0][0].op != "app" or abs(k) != 1:
            return None
        x, s = m[0][0], k
    if x is None or x.args[0] not in CASE_RANGE:
        return None
    n = CASE_RANGE[x.args[0]](x.args[1])
    v = -p.get((), 0) * s
    if n is None or v != int(v) or not 0 <= v < n:
        return None
    return x, int(v), n


def _case_chain(c, a, b):
    """a table indexed by x: the cases in increasing order, the last one without a test when all are there"""
    k = _case_of(c)
    if k is None or a.sort == "B":
        return None
    x, v, n = k
    cases = {v: a}
    while b.op == "ite":
        k2 = _case_of(b.args[0])
        if k2 is None or k2[0] is not x:
            break
        cases.setdefault(k2[1], b.args[1])
        b = b.args[2]
    # an exhausted chain leaves its last case as the default
    if len(cases) == n:
        keys = sorted(cases)
        b = cases[keys.pop()]
    elif len(cases) == n - 1 and v in cases:
        keys = sorted(cases)
        miss = next(i for i in range(n) if i not in cases)
        if miss != n - 1:
            cases[miss] = b
            keys = sorted(cases)
            b = cases[keys.pop()]
    else:
        keys = sorted(cases)
    for i in reversed(keys):
        if cases[i] is not b:
            b = mk("ite", (eq(x, num(i)), cases[i], b), a.sort)
    return b


# ---------------------------------------------------------------- functions
PI = var("PI", "R")


def app(name, args, sort):
    return mk("app", (name, tuple(args), sort), sort)


def _lead_neg(t):
    p = to_poly(t)
    items = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))
    return items[0][1] < 0


def cos(t):
    t = toreal(t)
    if is_num(t) and nval(t) == 0:
        return ONE_R
    if _lead_neg(t):
        t = neg(t)
    return app("cos", (t,), "R")


def _multiple_of_pi(t):
    q = {}
    for m, c in to_poly(t).items():
        d = dict(m)
        if d.get(PI) != 1 or c.denominator != 1:
            return False
        if any(a is not PI and (a.sort != "I" or e < 0) for a, e in m):
            return False
    return True


def sin(t):
    t = toreal(t)
    if is_num(t) and nval(t) == 0:
        return ZERO_R
    if _multiple_of_pi(t):
        return ZERO_R
    if _lead_neg(t):
        return neg(app("sin", (neg(t),), "R"))
    return app("sin", (t,), "R")


def exp(t):
    t = toreal(t)
    if is_num(t) and nval(t) == 0:
        return ONE_R
    return app("exp", (t,), "R")


def sqrt(t):
    t = toreal(t)
    if is_num(t):
        from math import isqrt
        v = nval(t)
        if v >= 0:
            a, b = isqrt(v.numerator), isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator:
                return num(Fraction(a, b), "R")
    return app("sqrt", (t,), "R")


def ufun(name, t):
    return app(name, (toreal(t),), "R")


def absr(t):
    if is_num(t):
        return num(abs(nval(t)), t.sort)
    return ite(le(num(0, t.sort), t), t, neg(t))


def f2u(t):
    """f64 as usize/u64: truncation toward zero, saturating at 0 (and unbounded above)."""
    i = isreal_int(t)
    if i is not None:
        if is_num(i):
            return num(max(0, nval(i)))
        if entails(le(ZERO_I, i)):
            return i
        return ite(le(ZERO_I, i), i, ZERO_I)
    if is_num(t):
        v = nval(t)
        return num(max(0, v.numerator // v.denominator))
    if t.op == "ite":
        return ite(t.args[0], f2u(t.args[1]), f2u(t.args[2]))
    # an integer constant may be split off
    p = to_poly(t)
    if len(p) >= 1:
        # rational with a single positive integer denominator: floor(a/b) = idiv
        den = {}
        cd = 1
        from math import gcd
        ok = True
        for m, c in p.items():
            cd = cd * c.denominator // gcd(cd, c.denominator)
            for a, e in m:
                if a.sort != "I":
                    ok = False
                elif e < 0:
                    den[a] = max(den.get(a, 0), -e)
        if ok:
            D = from_poly({tuple(sorted(den.items(), key=lambda ae: ae[0].id)): Fraction(cd)}, "I")
            N = isreal_int(mul(t, toreal(D)))
            if N is not None and entails(le(ZERO_I, N)) and entails(lt(ZERO_I, D)):
                return idiv(N, D)
    return app("f2u", (t,), "I")


# ---------------------------------------------------------------- free variables / substitution
def fv(t):
    if t._fv is None:
        s = set()
        if t.op == "var":
            s.add(t)
        elif t.op == "sum":
            n, body, v = t.args
            s |= fv(n)
            s |= (fv(body) - {v})
        else:
            for a in _children(t):
                s |= fv(a)
        t._fv = frozenset(s)
    return t._fv


def _children(t):
    op = t.op
    if op in ("num", "var", "bool"):
        return ()
    if op == "poly":
        return tuple(a for m, _ in t.args for a, _e in m)
    if op == "app":
        return t.args[1]
    if op == "sum":
        return t.args
    return t.args


def children(t):
    return _children(t)


class SeqRef:
    """Marks an argument of an app that is a whole sequence (used for DFTs); see values.seqid"""


def rebuild(t, f, under=None):
    """Rebuild t with children mapped by f via the smart constructors."""
    op = t.op
    if op in ("num", "var", "bool"):
        return t
    if op == "poly":
        acc = {}
        sort = t.sort
        tot = []
        for m, c in t.args:
            x = num(c, sort)
            for a, e in m:
                b = f(a)
                if e >= 0:
                    if sort == "R":
                        b = toreal(b)
                    for _ in range(e):
                        x = mul(x, b)
                else:
                    ib = inv(b)
                    for _ in range(-e):
                        x = mul(x, ib)
            tot.append(x)
        r = add(num(0, sort), *tot)
        return r
    if op == "app":
        name = t.args[0]
        args = tuple(f(a) for a in t.args[1])
        if name == "cos":
            return cos(args[0])
        if name == "sin":
            return sin(args[0])
        if name == "exp":
            return exp(args[0])
        if name == "sqrt":
            return sqrt(args[0])
        if name == "f2u":
            return f2u(args[0])
        r = _app_hooks.get(name.split("#")[0])
        if r:
            return r(name, args, t.sort)
        return app(name, args, t.sort)
    if op == "inv":
        return inv(f(t.args[0]))
    if op == "ite":
        return ite(f(t.args[0]), f(t.args[1]), f(t.args[2]))
    if op == "idiv":
        return idiv(f(t.args[0]), f(t.args[1]))
    if op == "mod":
        return imod(f(t.args[0]), f(t.args[1]))
    if op == "and":
        return band(*[f(a) for a in t.args])
    if op == "or":
        return bor(*[f(a) for a in t.args])
    if op == "not":
        return bnot(f(t.args[0]))
    if op == "iff":
        return iff(f(t.args[0]), f(t.args[1]))
    if op == "le0":
        return le(f(t.args[0]), num(0, t.args[0].sort))
    if op == "lt0":
        return lt(f(t.args[0]), num(0, t.args[0].sort))
    if op == "eq0":
        return eq(f(t.args[0]), num(0, t.args[0].sort))
    if op == "eq":
        return eq(f(t.args[0]), f(t.args[1]))
    if op == "sum":
        n, body, v = t.args
        w = fresh("s")
        nn = f(n)
        b2 = subst(body, {v: w})
        with with_facts([le(ZERO_I, w), lt(w, nn)]):
            b3 = getattr(f, "scoped", f)(b2)
        return sum_(nn, w, b3)
    raise AssertionError(op)


_app_hooks = {}


def subst(t, m, memo=None):
    if not m:
        return t
    keys = frozenset(m)
    if memo is None:
        memo = {}

    def go(x):
        if x in m:
            return m[x]
        if not (fv(x) & keys) and not any(k.op != "var" for k in keys):
            return x
        if x in memo:
            return memo[x]
        r = rebuild(x, go)
        memo[x] = r
        return r

    go.scoped = lambda x: subst(x, m)
    return go(t)


def replace(t, m):
    """Replace arbitrary subterms (not only variables)."""
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        if x in memo:
            return memo[x]
        r = rebuild(x, go) if x.op not in ("num", "var", "bool") else x
        memo[x] = r
        return r

    go.scoped = lambda x: replace(x, m)
    return go(t)


def resimplify(t):
    """Rebuild t under the current facts (resolves idiv/mod/ite that facts now decide)."""
    memo = {}

    def go(x):
        if x.op in ("num", "var", "bool"):
            return x
        if x in memo:
            return memo[x]
        if x.sort == "B" and x.op in ("app", "le0", "lt0", "eq0", "eq", "iff"):
            if x in Ctx.fs:
                return TRUE
            if bnot(x) in Ctx.fs:
                return FALSE
        if x.op == "ite":
            c = go(x.args[0])
            if c is not TRUE and c is not FALSE and not (fv(c) and any(v.args[0].startswith("$") for v in fv(c))):
                if entails(c):
                    c = TRUE
                elif entails(bnot(c)):
                    c = FALSE
                elif c.op == "and":
                    kept = list(c.args)
                    for y in c.args:
                        others = [z for z in kept if z is not y]
                        with with_facts(others):
                            red = entails(y)
                        if red:
                            kept = others
                    c = band(*kept)
                elif c.op == "or":
                    c = bor(*[y for y in c.args if not entails(bnot(y))])
            if c is TRUE:
                r = go(x.args[1])
            elif c is FALSE:
                r = go(x.args[2])
            else:
                with with_facts([c]):
                    a = resimplify(x.args[1])
                with with_facts([bnot(c)]):
                    b = resimplify(x.args[2])
                r = ite(c, a, b)
        elif x.op == "sum":
            n, body, v = x.args
            w = fresh("s")
            nn = go(n)
            b2 = subst(body, {v: w})
            with with_facts([le(ZERO_I, w), lt(w, nn)]):
                b3 = resimplify(b2)
            r = sum_(nn, w, b3)
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r

    return go(t)


# ---------------------------------------------------------------- sums
def _height(t):
    if t._h is None:
        if t.op == "sum":
            t._h = 1 + _height(t.args[1])
        else:
            t._h = max([0] + [_height(a) for a in _children(t)])
    return t._h


EXPAND = 16


def sum_(n, v, body):
    """sum of body over v = 0 .. n-1 (empty if n <= 0), in normal form."""
    if is_num(n):
        k = int(nval(n))
        if k <= 0:
            return num(0, body.sort)
        if k <= EXPAND:
            return add(num(0, body.sort), *[subst(body, {v: num(i)}) for i in range(k)])
    if v not in fv(body):
        return mul(_nn(n), body) if body.sort == "I" else mul(toreal(_nn(n)), body)
    sort = body.sort
    if body.op == "ite" and v not in fv(body.args[0]):
        return ite(body.args[0], sum_(n, v, body.args[1]), sum_(n, v, body.args[2]))
    p = to_poly(body)
    tot = []
    for m, c in p.items():
        outer = num(c, sort)
        inner = []
        for a, e in m:
            if v in fv(a):
                inner.append((a, e))
            else:
                outer = mul(outer, from_poly({((a, e),): Fraction(1)}, sort))
        if not inner:
            nn = _nn(n)
            tot.append(mul(outer, toreal(nn) if sort == "R" else nn))
            continue
        # a single conditional factor whose other branch vanishes keeps its product inside
        b = from_poly({tuple(inner): Fraction(1)}, sort)
        if len(inner) == 1 and inner[0][1] == 1 and inner[0][0].op == "ite" and v not in fv(inner[0][0].args[0]):
            tot.append(mul(outer, sum_(n, v, inner[0][0])))
            continue
        tot.append(mul(outer, _mksum(n, v, b, sort)))
    return add(num(0, sort), *tot)


def _nn(n):
    """max(n, 0)"""
    if entails(le(ZERO_I, n)):
        return n
    return ite(le(ZERO_I, n), n, ZERO_I)


def _mksum(n, v, b, sort):
    if b.op == "ite" and is_num(b.args[1]) and is_num(b.args[2]) and nval(b.args[1]) == 0 and nval(b.args[2]) == 1:
        # the number of misses is n minus the number of hits
        nn = _nn(n)
        return sub(toreal(nn) if sort == "R" else nn, _mksum(n, v, ite(b.args[0], num(1, b.sort), num(0, b.sort)), sort))
    h = _height(b)
    cv = var("$%d" % h, "I")
    bb = subst(b, {v: cv})
    return mk("sum", (n, bb, cv), sort)


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    op = t.op
    if depth > 12:
        return "..."
    s = lambda x: show(x, depth + 1)
    if op == "num":
        return str(t.args[0])
    if op == "var":
        return t.args[0]
    if op == "bool":
        return str(t.args[0]).lower()
    if op == "poly":
        parts = []
        for m, c in t.args:
            fs = []
            if c != 1 or m == ():
                fs.append(str(c))
            for a, e in m:
                w = s(a)
                if a.op in ("ite",):
                    w = "(" + w + ")"
                fs.append(w if e == 1 else "%s^%d" % (w, e))
            parts.append("*".join(fs))
        return "(" + " + ".join(parts) + ")"
    if op == "app":
        return "%s(%s)" % (t.args[0], ", ".join(s(a) for a in t.args[1]))
    if op == "ite":
        return "if %s then %s else %s" % tuple(s(a) for a in t.args)
    if op == "le0":
        return "%s <= 0" % s(t.args[0])
    if op == "lt0":
        return "%s < 0" % s(t.args[0])
    if op == "eq0":
        return "%s = 0" % s(t.args[0])
    if op == "sum":
        return "sum[%s<%s](%s)" % (t.args[2].args[0], s(t.args[0]), s(t.args[1]))
    return "%s(%s)" % (op, ", ".join(s(a) for a in t.args))


def atoms(t, pred, acc=None, seen=None):
    """All subterms satisfying pred (not under binders unless closed)."""
    if acc is None:
        acc, seen = [], set()
    if t in seen:
        return acc
    seen.add(t)
    if pred(t):
        acc.append(t)
    for a in _children(t):
        atoms(a, pred, acc, seen)
    return acc
