"""Obligation discharge: polynomial normal form + case splitting + z3 (cvc5 second), and numeric refutation."""
import time
import math
import random
import hashlib
from fractions import Fraction
import z3
from .terms import *
from . import terms as TM

STATS = {"z3": 0, "z3_time": 0.0, "cvc5": 0, "cvc5_time": 0.0, "norm": 0, "oracle": 0, "oracle_time": 0.0}

_zc = {}
_mono = {}
_zsorts = {}


def zsort(s):
    if s == "I":
        return z3.IntSort()
    if s == "R":
        return z3.RealSort()
    if s == "B":
        return z3.BoolSort()
    if s not in _zsorts:
        _zsorts[s] = z3.DeclareSort(s.replace(":", "_"))
    return _zsorts[s]


class Z:
    """Translator.  lin=True replaces every nonlinear monomial by an opaque variable."""

    def __init__(self, lin):
        self.lin = lin
        self.cache = {}
        self.monos = {}
        self.seen_atoms = {}

    def t(self, x):
        r = self.cache.get(x)
        if r is None:
            r = self._t(x)
            self.cache[x] = r
        return r

    def mono(self, m, sort):
        """monomial -> z3 arithmetic expr, plus its sort"""
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            e = self.t(a)
            if sort == "R" and a.sort == "I":
                e = z3.ToReal(e)
            return e
        for a, _ in m:
            self.t(a)
        if self.lin:
            allint = all(a.sort == "I" and e > 0 for a, e in m)
            k = (m, "I" if allint else "R")
            v = self.monos.get(k)
            if v is None:
                nm = "m!" + "_".join("%d^%d" % (a.id, e) for a, e in m)
                v = z3.Int(nm) if allint else z3.Real(nm)
                self.monos[k] = v
            return z3.ToReal(v) if (allint and sort == "R") else v
        e = None
        for a, ex in m:
            b = self.t(a)
            if sort == "R" and a.sort == "I":
                b = z3.ToReal(b)
            for _ in range(abs(ex)):
                if ex > 0:
                    e = b if e is None else e * b
                else:
                    e = 1 / b if e is None else e / b
        return e

    def arith(self, x, sort):
        if x.op == "num":
            return z3.RealVal(str(x.args[0])) if sort == "R" else z3.IntVal(int(x.args[0]))
        p = to_poly(x)
        parts = []
        for m, c in p.items():
            if m == ():
                parts.append(z3.RealVal(str(c)) if sort == "R" else z3.IntVal(int(c)))
                continue
            e = self.mono(m, sort)
            if c != 1:
                e = (z3.RealVal(str(c)) if sort == "R" else z3.IntVal(int(c))) * e
            parts.append(e)
        if not parts:
            return z3.RealVal(0) if sort == "R" else z3.IntVal(0)
        return parts[0] if len(parts) == 1 else z3.Sum(parts)

    def _t(self, x):
        op = x.op
        if op == "bool":
            return z3.BoolVal(x.args[0])
        if op in ("num", "poly"):
            return self.arith(x, x.sort)
        if op == "var":
            return z3.Const("v_%s_%s" % (x.args[0], x.sort), zsort(x.sort))
        if op == "app":
            args = [self.t(a) for a in x.args[1]]
            self.seen_atoms[x] = True
            if not args:
                return z3.Const("c_%s_%s" % (x.args[0], x.sort), zsort(x.sort))
            f = z3.Function("f_%s_%s" % (x.args[0], "".join(a.sort for a in x.args[1])), *[zsort(a.sort) for a in x.args[1]], zsort(x.sort))
            return f(*args)
        if op == "ite":
            a, b = x.args[1], x.args[2]
            if x.sort == "R":
                return z3.If(self.t(x.args[0]), self.arith(toreal(a), "R"), self.arith(toreal(b), "R"))
            return z3.If(self.t(x.args[0]), self.t(a), self.t(b))
        if op in ("idiv", "mod"):
            self.seen_atoms[x] = True
            for a in x.args:
                self.t(a)
            return z3.Int("%s!%d" % (op, x.id))
        if op == "inv":
            self.seen_atoms[x] = True
            self.t(x.args[0])
            return z3.Real("inv!%d" % x.id)
        if op == "sum":
            self.seen_atoms[x] = True
            return z3.Const("sum!%d" % x.id, zsort(x.sort))
        if op == "and":
            return z3.And([self.t(a) for a in x.args])
        if op == "or":
            return z3.Or([self.t(a) for a in x.args])
        if op == "not":
            return z3.Not(self.t(x.args[0]))
        if op == "iff":
            return self.t(x.args[0]) == self.t(x.args[1])
        if op == "le0":
            return self.arith(x.args[0], x.args[0].sort) <= 0
        if op == "lt0":
            return self.arith(x.args[0], x.args[0].sort) < 0
        if op == "eq0":
            return self.arith(x.args[0], x.args[0].sort) == 0
        if op == "eq":
            return self.t(x.args[0]) == self.t(x.args[1])
        raise AssertionError(op)


def _gather(ts):
    ats, seen = [], set()
    def isat(t):
        return t.op in ("idiv", "mod", "app", "inv", "sum")
    for t in ts:
        atoms(t, isat, ats, seen)
    return ats


def closed(t):
    return not any(v.args[0].startswith("$") for v in fv(t))


def atom_axioms(ts, depth=2):
    """Instances of the stated axioms for the interpreted atoms occurring in ts."""
    out, done = [], set()
    frontier = list(ts)
    for _ in range(depth):
        new = []
        for a in _gather(frontier):
            if a in done or not closed(a):
                continue
            done.add(a)
            if a.op == "idiv":
                x, b = a.args
                pos = lt(ZERO_I, b)
                bq = mul(b, a)
                new.append(implies(pos, band(le(bq, x), lt(x, add(bq, b)))))
                new.append(implies(band(pos, le(ZERO_I, x)), le(ZERO_I, a)))
                if not is_num(b):
                    new.append(implies(band(pos, le(ONE_I, a)), le(b, x)))
            elif a.op == "mod":
                x, b = a.args
                q = mk("idiv", (x, b), "I")
                pos = lt(ZERO_I, b)
                bq = mul(b, q)
                new.append(implies(pos, band(eq(x, add(bq, a)), le(ZERO_I, a), lt(a, b))))
                new.append(implies(band(pos, le(ZERO_I, x)), le(ZERO_I, q)))
            elif a.op == "inv":
                pass
            elif a.op == "sum":
                n, body, v = a.args
                if _nonneg(body):
                    new.append(le(num(0, a.sort), a))
                if a.sort == "I" and body.op == "ite" and is_num(body.args[1]) and is_num(body.args[2]) \
                        and {nval(body.args[1]), nval(body.args[2])} <= {0, 1}:
                    new.append(implies(le(ZERO_I, n), le(a, n)))
            elif a.op == "app":
                nm = a.args[0]
                if nm == "sqrt":
                    x = a.args[1][0]
                    new.append(implies(le(ZERO_R, x), band(le(ZERO_R, a), mk("eq0", (from_poly({((a, 2),): Fraction(1), **{m: -c for m, c in to_poly(x).items()}}, "R"),), "B"))))
                elif nm == "exp":
                    new.append(lt(ZERO_R, a))
                elif nm in ("cos", "sin"):
                    new.append(le(a, ONE_R))
                    new.append(le(num(-1, "R"), a))
                elif nm == "f2u":
                    x = a.args[1][0]
                    new.append(implies(le(ZERO_R, x), band(le(toreal(a), x), lt(x, add(toreal(a), ONE_R)))))
                    new.append(implies(lt(x, ZERO_R), eq(a, ZERO_I)))
                    new.append(le(ZERO_I, a))
                else:
                    for ax in APP_AXIOMS.get(nm.split("#")[0], ()):
                        new.extend(ax(a))
        if not new:
            break
        out += new
        frontier = new
    if any(PI in fv(t) for t in list(ts) + out):
        out.append(lt(num(Fraction(314, 100), "R"), PI))
        out.append(lt(PI, num(Fraction(315, 100), "R")))
    return [o for o in out if o is not TRUE]


APP_AXIOMS = {}


def _nonneg(b):
    """syntactic: every monomial is a product of even powers / inherently nonnegative atoms"""
    for m, c in to_poly(b).items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 == 0:
                continue
            if a.op == "ite" and all(_nonneg(x) for x in a.args[1:]):
                continue
            if a.op == "app" and a.args[0] in ("exp", "sqrt", "f2u", "normsq"):
                continue
            return False
    return True


# ------------------------------------------------------------------ products of facts
def product_lemmas(facts, goal_terms, limit=40):
    """A >= 0 and B >= 0 give A*B >= 0; only pairs whose product shares a nonlinear monomial with the problem."""
    nl = set()
    def coll(t):
        def isp(x):
            return x.op in ("le0", "lt0", "eq0")
        for c in atoms(t, isp):
            for m in to_poly(c.args[0]):
                if sum(abs(e) for _, e in m) >= 2:
                    nl.add(m)
    for t in list(facts) + list(goal_terms):
        coll(t)
    if not nl:
        return []
    nlvars = {a for m in nl for a, _ in m}
    nn = []
    def collect_nn(f):
        if f.op == "le0":
            nn.append(neg(f.args[0]))
        elif f.op == "lt0":
            nn.append(neg(f.args[0]))
        elif f.op == "and":
            for x in f.args:
                collect_nn(x)
        elif f.op == "not" and False:
            pass
    for f in facts:
        collect_nn(f)
    nn = [p for p in nn if any(a in nlvars for m in to_poly(p) for a, _ in m) and len(to_poly(p)) <= 4
          and all(sum(abs(e) for _, e in m) <= 2 for m in to_poly(p))]
    nn = list(dict.fromkeys(nn))[:24]
    scored = []
    for i in range(len(nn)):
        for j in range(i, len(nn)):
            if i == j and len(to_poly(nn[i])) == 1:
                continue
            pr = mul(nn[i], nn[j])
            ms = [m for m in to_poly(pr) if sum(abs(e) for _, e in m) >= 2]
            hit = sum(1 for m in ms if m in nl)
            miss = len(ms) - hit
            if hit == 0:
                continue
            scored.append((miss, i + j, le(num(0, pr.sort), pr)))
    scored.sort(key=lambda x: x[:2])
    return [s[2] for s in scored[:limit] if s[2] is not TRUE]


# ------------------------------------------------------------------ oracle used during simplification
_ocache = {}
ORACLE_MS = 250


def _relevant(facts, goal, cap=60):
    """facts connected to the goal through shared free variables (cheap relevance filter)"""
    if len(facts) <= 12:
        return list(facts)
    vs = set(fv(goal))
    picked = []
    rest = list(facts)
    for _ in range(3):
        nxt = []
        add_v = set()
        for f in rest:
            if fv(f) & vs or not fv(f):
                picked.append(f)
                add_v |= fv(f)
            else:
                nxt.append(f)
        if not add_v - vs:
            break
        vs |= add_v
        rest = nxt
        if len(picked) > cap:
            break
    return picked


_in_oracle = False


def oracle(facts, goal):
    global _in_oracle
    if _in_oracle:
        return False
    key = (frozenset(facts), goal)
    r = _ocache.get(key)
    if r is None:
        _in_oracle = True
        try:
            saved = (Ctx.facts, Ctx.fs)
            Ctx.facts, Ctx.fs = (), frozenset()
            t0 = time.time()
            r = _lin_check(_relevant(facts, goal), goal, ORACLE_MS)
            STATS["oracle"] += 1
            STATS["oracle_time"] += time.time() - t0
        finally:
            Ctx.facts, Ctx.fs = saved
            _in_oracle = False
        _ocache[key] = r
    return r


def _lin_check(facts, goal, ms):
    hyps = list(facts)
    ng = bnot(goal)
    ax = atom_axioms(hyps + [ng])
    pl = product_lemmas(hyps + ax + [ng], [ng])
    z = Z(True)
    s = z3.SimpleSolver()
    s.set("timeout", ms)
    for f in hyps + ax + pl + [ng]:
        s.add(z.t(f))
    return s.check() == z3.unsat


Ctx.oracle = oracle


def consistent(facts):
    """False only if the facts are certainly contradictory."""
    return not oracle(tuple(facts), FALSE)


# ------------------------------------------------------------------ prover
class Result:
    def __init__(self, status, how="", info=None, witness=None):
        self.status, self.how, self.info, self.witness = status, how, info, witness


def _is_cond(t):
    return t.op == "ite"


def _pick_cond(goal):
    """an innermost ite condition, or a boolean atom, of the goal that has no bound variables"""
    cands = []
    for x in atoms(goal, lambda t: t.op == "ite"):
        c = x.args[0]
        if closed(c):
            cands.append(c)
    if cands:
        # smallest first: avoid conditions that contain ites themselves
        def key(c):
            return (len(atoms(c, lambda t: t.op == "ite")), len(atoms(c, lambda t: True)), c.id)
        c = min(cands, key=key)
        while c.op in ("and", "or", "not", "iff"):
            c = c.args[0]
        return c
    return None


def set_cond(goal, c, val):
    nc = bnot(c)
    return replace(goal, {c: B(val), nc: B(not val)})


def _tables(ts, out, seen):
    """the largest subterms that are tables indexed by a function with a known finite range"""
    for t in ts:
        if not isinstance(t, TM.T) or t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "ite" and t.sort == "R" and TM._case_of(t.args[0]) is not None and closed(t):
            out.append(t)
            continue
        if t.op == "poly":
            _tables([a for m, c in t.args for a, e in m], out, seen)
        elif t.op == "app":
            _tables(t.args[1], out, seen)
        else:
            _tables(t.args, out, seen)


def prove(hyps, goal, depth=14, budget=None):
    """-> (bool proved, how)"""
    if budget is None:
        budget = {"deadline": time.time() + 40}
    tabs = []
    _tables(list(hyps) + [goal], tabs, set())
    if tabs:
        # the statement for arbitrary values in place of the tables
        m = {t: TM.fresh("g", t.sort) for t in tabs}
        ok, how = _prove0([TM.replace(h, m) for h in hyps], TM.replace(goal, m), depth, {"deadline": min(budget["deadline"], time.time() + 5)})
        if ok:
            return ok, how
    return _prove0(hyps, goal, depth, budget)


def _prove0(hyps, goal, depth, budget):
    with set_facts(hyps):
        return _prove(goal, depth, budget)


def _prove(goal, depth, budget):
    if goal is TRUE:
        STATS["norm"] += 1
        return True, "normal form"
    goal = resimplify(goal)
    if goal is TRUE or goal in Ctx.fs:
        STATS["norm"] += 1
        return True, "normal form"
    if not consistent(Ctx.facts):
        return True, "contradictory branch"
    if time.time() > budget["deadline"]:
        return False, "time budget"
    if goal.op == "and":
        how = ""
        for g in goal.args:
            ok, how = _prove(g, depth, budget)
            if not ok:
                return False, how
        return True, how
    if goal.op == "or":
        # assume the negation of all but one disjunct when they are simple
        g2 = _or_goal(goal, depth, budget)
        if g2:
            return True, "case"
    if goal.op == "iff":
        a, b = goal.args
        with with_facts([a]):
            ok1, h = _prove(b, depth, budget) if Ctx.facts else (False, "")
        if ok1:
            if a.op == "app":
                with with_facts([bnot(a)]):
                    ok2, h = _prove(bnot(b), depth, budget)
                if ok2:
                    return True, h
            with with_facts([b]):
                ok2, h = _prove(a, depth, budget)
            if ok2:
                return True, h
        if not ok1 or not ok2:
            pass
    # sums that are provably the same
    g = _merge_sums(goal, depth, budget)
    if g is not goal:
        return _prove(g, depth, budget)
    if depth > 0:
        c = _pick_cond(goal)
        if c is not None:
            r = []
            for val in (True, False):
                with with_facts([c if val else bnot(c)]):
                    ok, how = _prove(set_cond(goal, c, val), depth - 1, budget)
                if not ok:
                    return False, how
                r.append(how)
            return True, r[-1]
    g = _peel_sums(goal, depth, budget)
    if g is not goal:
        return _prove(g, depth, budget)
    if _lin_check(list(Ctx.facts), goal, 1500):
        STATS["z3"] += 1
        return True, "z3 (linear + product lemmas)"
    g = trig_split(goal)
    if g is not goal:
        if g is TRUE:
            return True, "normal form (angle sums)"
        ok, how = _prove(g, depth - 1, budget) if depth > 0 else (False, "")
        if ok:
            return True, how
    return _z3(goal)


def trig_split(t):
    """Inside every sum, expand cos(a + b) and sin(a + b) where a depends on the summation index and b does not;
    then sin^2 = 1 - cos^2."""
    changed = []

    def go(x):
        if x.op in ("num", "var", "bool") or not atoms(x, lambda y: y.op == "sum"):
            return x
        if x.op != "sum":
            return rebuild(x, go)
        n, body, v = x.args
        w = fresh("s")
        b = go(subst(body, {v: w}))
        m = {}
        for a in atoms(b, lambda y: y.op == "app" and y.args[0] in ("cos", "sin") and w in fv(y) and closed(y)):
            p = to_poly(a.args[1][0])
            i = {k: c for k, c in p.items() if any(w in fv(z) for z, _ in k)}
            o = {k: c for k, c in p.items() if k not in i}
            if not o or not i:
                continue
            i, o = from_poly(i, "R"), from_poly(o, "R")
            if a.args[0] == "cos":
                m[a] = sub(mul(cos(i), cos(o)), mul(sin(i), sin(o)))
            else:
                m[a] = add(mul(sin(i), cos(o)), mul(cos(i), sin(o)))
        if m:
            changed.append(1)
            b = replace(b, m)
        return sum_(go(n), w, b)
    r = go(t)
    if not changed:
        return t
    return pyth(r)


def pyth(t):
    """sin^2 = 1 - cos^2 in every polynomial of t"""
    memo = {}

    def go(x):
        if x.op in ("num", "var", "bool"):
            return x
        if x in memo:
            return memo[x]
        r = rebuild(x, go)
        if r.op == "poly" and r.sort == "R" and any(a.op == "app" and a.args[0] == "sin" and e >= 2 for m, _ in r.args for a, e in m):
            tot = num(0, "R")
            for m, c in r.args:
                y = num(c, "R")
                for a, e in m:
                    if a.op == "app" and a.args[0] == "sin" and e >= 2:
                        y = mul(y, powi(sub(ONE_R, powi(cos(a.args[1][0]), 2)), e // 2))
                        e %= 2
                    if e:
                        y = mul(y, from_poly({((a, e),): Fraction(1)}, "R"))
                tot = add(tot, y)
            r = tot
        memo[x] = r
        return r
    go.scoped = lambda x: pyth(x)
    return go(t)


def _or_goal(goal, depth, budget):
    for g in goal.args:
        rest = [bnot(x) for x in goal.args if x is not g]
        with with_facts(rest):
            if not consistent(Ctx.facts):
                return True
            ok, _ = _prove(g, depth - 1, budget) if depth > 0 else (False, "")
        if ok:
            return True
        break
    return False


def _merge_sums(goal, depth, budget):
    sums = [s for s in atoms(goal, lambda t: t.op == "sum") if closed(s)]
    if len(sums) < 2 or depth <= 0:
        return goal
    sums = sums[:12]
    tried = budget.setdefault("sums", {})
    for i in range(len(sums)):
        for j in range(i):
            a, b = sums[j], sums[i]
            if a.sort != b.sort:
                continue
            key = (a, b, Ctx.fs)
            if key in tried:
                continue
            tried[key] = False
            sg = _sums_equal(a, b, depth - 1, budget)
            if sg:
                tried[key] = True
                return replace(goal, {b: a if sg > 0 else neg(a)})
    return goal


def _peel_sums(goal, depth, budget):
    sums = [s for s in atoms(goal, lambda t: t.op == "sum") if closed(s)]
    if len(sums) < 2 or depth <= 0:
        return goal
    sums = sums[:12]
    # peel constant differences of length: sum_(m + c) = sum_(m) + the last c terms
    for i in range(len(sums)):
        for j in range(len(sums)):
            a, b = sums[i], sums[j]
            if a is b or a.sort != b.sort:
                continue
            d = sub(a.args[0], b.args[0])
            if is_num(d) and 0 < nval(d) <= 4 and nval(d).denominator == 1 and entails(le(ZERO_I, b.args[0])):
                key = ("peel", a, b.args[0])
                if key in budget.setdefault("peel", set()):
                    continue
                budget["peel"].add(key)
                n, body, v = a.args
                x = sum_(b.args[0], v, body)
                for k in range(int(nval(d))):
                    x = add(x, subst(body, {v: add(b.args[0], num(k))}))
                return replace(goal, {a: x})
    return goal


def _dirs(body, v):
    """signs with which the index v occurs in arguments of functions"""
    r = set()
    for a in atoms(body, lambda y: y.op == "app" and v in fv(y)):
        for t in a.args[1]:
            if isinstance(t, T) and t.sort == "I":
                c = to_poly(t).get(((v, 1),))
                if c is not None:
                    r.add((a.args[0], 1 if c > 0 else -1))
    return r


def _sums_equal(a, b, depth, budget):
    """1 / -1: a = b / a = -b, term by term, in the same or in the opposite order; 0: not shown"""
    if a.args[0] is not b.args[0]:
        if not entails(eq(a.args[0], b.args[0])):
            return 0
    w = fresh("s")
    ba = subst(a.args[1], {a.args[2]: w})
    with with_facts([le(ZERO_I, w), lt(w, a.args[0])]):
        for rev in (False, True):
            u = sub(sub(a.args[0], ONE_I), w) if rev else w
            bb = subst(b.args[1], {b.args[2]: u})
            if rev:
                da, db = _dirs(ba, w), _dirs(bb, w)
                if not da or da != db:
                    continue
            for sg in ((1, -1) if a.sort == "R" else (1,)):
                g = eq(ba, bb if sg > 0 else neg(bb))
                # quick numeric filter
                if g is FALSE or not _numeric_maybe(Ctx.facts, g, 40):
                    continue
                ok, _ = _prove(g, min(depth, 8), budget)
                if ok:
                    return sg
    return 0


def _z3(goal, ms=4000):
    hyps = list(Ctx.facts)
    ng = bnot(goal)
    with set_facts(()):
        ax = atom_axioms(hyps + [ng])
        pl = product_lemmas(hyps + ax + [ng], [ng], 20)
    z = Z(False)
    s = z3.Solver()
    s.set("timeout", ms)
    for f in hyps + ax + pl + [ng]:
        s.add(z.t(f))
    t0 = time.time()
    r = s.check()
    STATS["z3_time"] += time.time() - t0
    STATS["z3"] += 1
    if r == z3.unsat:
        return True, "z3"
    if r == z3.sat:
        return False, "z3: sat"
    # second back end
    try:
        ok = _cvc5(s.to_smt2())
        if ok:
            return True, "cvc5"
    except Exception as e:          # the second solver is best effort
        pass
    return False, "unknown"


def _cvc5(smt, ms=4000):
    import cvc5
    t0 = time.time()
    tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
    slv = cvc5.Solver(tm) if tm else cvc5.Solver()
    slv.setOption("tlimit-per", str(ms))
    slv.setLogic("ALL")
    p = cvc5.InputParser(slv)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, "x")
    sm = p.getSymbolManager()
    res = ""
    while True:
        c = p.nextCommand()
        if c.isNull():
            break
        res += c.invoke(slv, sm)
    STATS["cvc5"] += 1
    STATS["cvc5_time"] += time.time() - t0
    return res.strip().startswith("unsat")


# ------------------------------------------------------------------ numeric evaluation
class EvalError(Exception):
    pass


APP_EVAL = {}


def _h(seed, name, args):
    d = hashlib.md5(("%s|%s|%s" % (seed, name, args)).encode()).digest()
    return int.from_bytes(d[:8], "little")


class Env:
    def __init__(self, vals, seed, big=1):
        self.vals, self.seed = vals, seed
        self.memo = {}
        self.steps = 0
        self.maxsteps, self.maxsum = 200000 * big, 3000 * big

    def ev(self, t, loc=None):
        if not loc:
            r = self.memo.get(t)
            if r is not None:
                return r
        self.steps += 1
        if self.steps > self.maxsteps:
            raise EvalError("too long")
        r = self._ev(t, loc or {})
        if not loc:
            self.memo[t] = r
        return r

    def _ev(self, t, loc):
        op = t.op
        ev = lambda x: self.ev(x, loc if loc and (fv(x) & loc.keys()) else None)
        if op == "num":
            v = t.args[0]
            return int(v) if t.sort == "I" else float(v)
        if op == "bool":
            return t.args[0]
        if op == "var":
            if t in loc:
                return loc[t]
            if t is PI:
                return math.pi
            if t in self.vals:
                return self.vals[t]
            raise EvalError("unassigned %s" % t)
        if op == "poly":
            s = 0 if t.sort == "I" else 0.0
            for m, c in t.args:
                v = int(c) if t.sort == "I" else float(c)
                for a, e in m:
                    x = ev(a)
                    if e < 0 and x == 0:
                        raise EvalError("division by zero")
                    v = v * x ** e
                s += v
            if isinstance(s, float) and (math.isnan(s) or math.isinf(s)):
                raise EvalError("not finite")
            return s
        if op == "app":
            nm = t.args[0]
            base = nm.split("#")[0]
            if base in APP_EVAL:
                return APP_EVAL[base](self, t, [ev(a) for a in t.args[1]])
            args = [ev(a) for a in t.args[1]]
            try:
                if nm == "cos":
                    return math.cos(args[0])
                if nm == "sin":
                    return math.sin(args[0])
                if nm == "exp":
                    return math.exp(args[0])
                if nm == "sqrt":
                    return math.sqrt(args[0])
                if nm == "log10":
                    return math.log10(args[0])
                if nm == "ln":
                    return math.log(args[0])
                if nm == "f2u":
                    return max(0, math.floor(args[0]))
                if nm == "f2i":
                    return int(args[0])
                if nm == "pow":
                    return args[0] ** args[1]
                if nm == "f32":
                    import struct
                    return struct.unpack("f", struct.pack("f", args[0]))[0]
            except (ValueError, OverflowError, ZeroDivisionError):
                raise EvalError(nm)
            key = tuple(round(a, 9) if isinstance(a, float) else a for a in args)
            h = _h(self.seed, nm, key)
            if t.sort == "B":
                return bool(h & 1)
            if t.sort == "I":
                return h % 97
            if t.sort == "R":
                mode = self.seed % 12
                if mode == 0:
                    return 0.0
                if mode == 1:
                    return 1.0
                if mode == 2:
                    return float(h % 3 - 1)
                return ((h % 2000003) / 1000001.5) * 2 - 2 or 0.37
            return ("G", t.sort, h % 7)
        if op == "inv":
            x = ev(t.args[0])
            if abs(x) < 1e-12:
                raise EvalError("division by zero")
            return 1.0 / x
        if op == "ite":
            v = ev(t.args[1]) if ev(t.args[0]) else ev(t.args[2])
            return float(v) if t.sort == "R" else v
        if op == "idiv":
            a, b = ev(t.args[0]), ev(t.args[1])
            if b == 0:
                raise EvalError("div 0")
            return a // b
        if op == "mod":
            a, b = ev(t.args[0]), ev(t.args[1])
            if b == 0:
                raise EvalError("div 0")
            return a % b
        if op == "sum":
            n, body, v = t.args
            k = ev(n)
            if k > self.maxsum:
                raise EvalError("long sum")
            s = 0 if t.sort == "I" else 0.0
            for i in range(k):
                l2 = dict(loc)
                l2[v] = i
                s += self.ev(body, l2)
            return s
        if op == "and":
            return all(ev(a) for a in t.args)
        if op == "or":
            return any(ev(a) for a in t.args)
        if op == "not":
            return not ev(t.args[0])
        if op == "iff":
            return ev(t.args[0]) == ev(t.args[1])
        if op in ("le0", "lt0", "eq0"):
            v = ev(t.args[0])
            if isinstance(v, float):
                sc = self._scale(t.args[0], loc)
                if abs(v) <= 1e-9 * sc:
                    # too close to decide with rounding
                    if op == "eq0":
                        return True
                    if not self._exact0(t.args[0], loc):
                        raise EvalError("borderline")
                    v = 0.0
            return v <= 0 if op == "le0" else (v < 0 if op == "lt0" else v == 0)
        if op == "eq":
            return ev(t.args[0]) == ev(t.args[1])
        raise EvalError(op)

    def _exact0(self, t, loc):
        """zero without rounding: every product has a factor that is exactly zero"""
        def z(a):
            if a.op == "num":
                return nval(a) == 0
            if a.op in ("var", "app"):
                if a.op == "app" and a.args[0] in ("cos", "sin", "exp", "sqrt", "log10", "ln", "pow"):
                    return False
                return self.ev(a, loc if loc and (fv(a) & loc.keys()) else None) == 0
            if a.op == "ite":
                c = self.ev(a.args[0], loc if loc and (fv(a.args[0]) & loc.keys()) else None)
                return z(a.args[1] if c else a.args[2])
            if a.op == "poly":
                return self._exact0(a, loc)
            if a.op == "sum":
                n, body, v = a.args
                k = self.ev(n, loc if loc and (fv(n) & loc.keys()) else None)
                for i in range(min(k, 3000)):
                    l2 = dict(loc or {})
                    l2[v] = i
                    if not self._exact0(body, l2):
                        return False
                return True
            return False
        return all(any(z(a) for a, e in m if e > 0) for m, c in to_poly(t).items())

    def _scale(self, t, loc):
        s = 1.0
        for m, c in to_poly(t).items():
            v = abs(float(c))
            for a, e in m:
                v *= abs(self.ev(a, loc if loc and (fv(a) & loc.keys()) else None)) ** e
            s += v
        return s


def _sample(vs, rng, mode):
    vals = {}
    for v in vs:
        if v is PI:
            continue
        if v.sort == "I":
            hi = (3, 6, 12, 40)[mode % 4]
            vals[v] = rng.randint(0, hi)
        elif v.sort == "R":
            r = rng.random()
            if r < 0.1:
                vals[v] = 0.0
            elif r < 0.35:
                vals[v] = float(rng.randint(-4, 12))
            else:
                vals[v] = rng.uniform(-5, 5) if mode % 2 else rng.uniform(0, 20)
        elif v.sort == "B":
            vals[v] = rng.random() < 0.5
        else:
            vals[v] = ("G", v.sort, rng.randint(0, 6))
    return vals


def _allvars(ts):
    s = set()
    for t in ts:
        s |= fv(t)
    return sorted(s, key=lambda t: t.id)


def _numeric_maybe(hyps, goal, tries):
    """False if some sample satisfying the hypotheses falsifies the goal."""
    r = numeric_refute(hyps, goal, tries, quick=True)
    return r is None


def _order_hyps(hyps):
    return sorted(hyps, key=lambda h: len(fv(h)))


def _bigs(ts):
    """integer constants beyond the usual sample range"""
    out, seen = set(), set()

    def walk(t):
        if t in seen:
            return
        seen.add(t)
        if t.sort == "I" or t.op in ("le0", "eq0"):
            for x in ([t] if t.op == "num" else []) + ([TM.num(c) for c in to_poly(t.args[0]).values()] if t.op in ("le0", "eq0") else []):
                c = abs(nval(x))
                if c == int(c) and 40 < c < 20000:
                    out.add(int(c))
        for a in TM._children(t):
            walk(a)
    for t in ts:
        walk(t)
    return sorted(out)


def solve_sample(vs, hyps, rng, mode, seed, bigs=()):
    """Random assignment, repaired greedily: defined integer variables (v = poly) are computed, simple bounds obeyed."""
    vals = _sample(vs, rng, mode)
    if bigs:
        for v in vs:
            if v.sort == "I" and rng.random() < 0.5:
                vals[v] = max(0, rng.choice(bigs) + rng.randint(-2, 2))
    hs = [h for h in hyps]
    for _ in range(3):
        changed = False
        for h in hs:
            env = Env(vals, seed)
            try:
                if env.ev(h):
                    continue
            except EvalError:
                return None
            # try to repair one variable of this fact
            cand = [v for v in fv(h) if v is not PI and v in vals]
            rng.shuffle(cand)
            fixed = False
            for v in cand[:4]:
                old = vals[v]
                for _k in range(6):
                    if v.sort == "I":
                        vals[v] = rng.randint(0, (2, 5, 9, 30)[(_k + mode) % 4])
                    elif v.sort == "R":
                        vals[v] = rng.choice([0.0, 1.0, rng.uniform(-1, 1), rng.uniform(0, 1), rng.uniform(0, 50)])
                    elif v.sort == "B":
                        vals[v] = not old
                    else:
                        break
                    try:
                        if Env(vals, seed).ev(h):
                            fixed = True
                            break
                    except EvalError:
                        pass
                if fixed:
                    changed = True
                    break
                vals[v] = old
            if not fixed:
                return None
        if not changed:
            return vals
    env = Env(vals, seed)
    try:
        if all(env.ev(h) for h in hs):
            return vals
    except EvalError:
        pass
    return None


def z3_models(hyps, ng, count=3, ms=1500):
    """candidate assignments from z3 with everything but variables uninterpreted"""
    out = []
    try:
        with set_facts(()):
            ax = atom_axioms(list(hyps) + [ng])
        z = Z(False)
        s = z3.Solver()
        s.set("timeout", ms)
        for f in list(hyps) + ax + [ng]:
            s.add(z.t(f))
        vs = _allvars(list(hyps) + [ng])
        for v in vs:
            if v.sort == "I":
                for top in (40, 6000):
                    s.push()
                    s.add(z.t(v) <= top)
                    s.add(z.t(v) >= 0)
                    if s.check() == z3.sat:
                        break
                    s.pop()
        for _ in range(count):
            if s.check() != z3.sat:
                break
            m = s.model()
            vals = {}
            diff = []
            for v in vs:
                if v is PI:
                    continue
                x = m.eval(z.t(v), model_completion=True)
                if v.sort == "I":
                    vals[v] = x.as_long()
                elif v.sort == "R":
                    try:
                        vals[v] = float(x.as_fraction())
                    except Exception:
                        vals[v] = float(x.approx(12).as_fraction())
                elif v.sort == "B":
                    vals[v] = z3.is_true(x)
                else:
                    vals[v] = ("G", v.sort, hash(str(x)) % 7)
                if v.sort in ("I", "B"):
                    diff.append(z.t(v) != x)
            out.append(vals)
            if not diff:
                break
            s.add(z3.Or(diff))
    except Exception:
        pass
    return out


def numeric_refute(hyps, goal, tries=400, quick=False, seed=1):
    """A concrete assignment (real cos/sin/...) making every hypothesis true and the goal false, or None."""
    if goal is TRUE:
        return None
    if goal is FALSE and not hyps:
        return {"vals": {}, "seed": 0}
    vs = _allvars(list(hyps) + [goal])
    rng = random.Random(12345 + seed)
    hyps = _order_hyps(list(hyps))
    cands = []
    if not quick:
        cands = z3_models(hyps, bnot(goal))
    sat = 0
    bigs = [] if quick else _bigs(list(hyps) + [goal])
    t0 = time.time()
    for k in range(tries + len(cands)):
        sd = rng.randint(0, 1 << 30)
        if k < len(cands):
            vals = cands[k]
        else:
            vals = solve_sample(vs, hyps, rng, k, sd, bigs if k % 10 == 3 else ())
            if vals is None:
                continue
        env = Env(vals, sd, 6 if k < len(cands) or (bigs and k % 10 == 3) else 1)
        try:
            if not all(env.ev(h) for h in hyps):
                continue
            sat += 1
            if not env.ev(goal):
                return {"vals": {str(v): x for v, x in vals.items()}, "seed": sd}
        except EvalError:
            continue
        if quick and sat >= 12:
            break
        if time.time() - t0 > (3 if quick else 15):
            break
    return None


def find_sat(hyps, tries=600):
    """Reachability (vacuity) check: one concrete assignment satisfying all hypotheses, or z3 sat."""
    vs = _allvars(hyps)
    rng = random.Random(7)
    hs = _order_hyps(list(hyps))
    for k in range(tries):
        sd = rng.randint(0, 1 << 30)
        vals = solve_sample(vs, hs, rng, k, sd)
        if vals is None:
            continue
        try:
            env = Env(vals, sd)
            if all(env.ev(h) for h in hs):
                return True
        except EvalError:
            pass
    return bool(z3_models(hs, TRUE, 1)) if hs else True


def check(hyps, goal, want_refute=True):
    hyps = [h for h in hyps if h is not TRUE]
    hyps = [h for h in TM.SPLIT if h not in hyps] + hyps
    try:
        ok, how = prove(hyps, goal)
    except (OverflowError, RecursionError) as e:
        ok, how = False, "prover: %s" % e
    if ok:
        return Result("discharged", how)
    w = numeric_refute(hyps, goal) if want_refute else None
    if w is not None:
        return Result("refuted", how, witness=w)
    return Result("undecided", how)
