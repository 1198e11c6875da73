"""Obligations: generation from function contracts, discharge, and the report."""
import json, os, re, sys, time, traceback
from .terms import *
from . import terms as TM
from .values import *
from . import values as VL
from . import mir as M, exec as E, std as S, prove as P

import z3
z3error = z3.Z3Exception
St = E.St


class Obl:
    __slots__ = ("name", "fn", "kind", "facts", "goal", "status", "how", "witness", "wall")

    def __init__(self, name, fn, kind, facts, goal):
        self.name, self.fn, self.kind, self.facts, self.goal = name, fn, kind, tuple(facts), goal
        self.status = self.how = self.witness = None
        self.wall = 0.0


class Ctx2:
    """One property's proof: a set of named obligations over functions of the crate."""

    def __init__(self, pid, mir, deadline=None):
        self.pid, self.mir = pid, mir
        self.obls = []
        self.under = {}            # function -> contract text
        self.notes = []
        self.undecided = []        # (name, reason)
        self.lost = []
        self.assumed = set()
        self.ex_all = []
        self.deadline = deadline
        self.uses = set()

    # ------------------------------------------------------------ execution
    def exec(self, contracts=None):
        ex = E.Exec(self.mir, S.STD, contracts or {})
        self.ex_all.append(ex)
        return ex

    def fn(self, name):
        f = self.mir.fns.get(name)
        if f is None:
            raise Unsupported("function %s is not in the compiled crate (lost anchor)" % name)
        return f

    def method(self, trait, ty, meth):
        f = self.mir.methods.get((trait, ty, meth))
        if not f:
            raise Unsupported("method %s of %s is not in the compiled crate (lost anchor)" % (meth, ty))
        return f[0]

    def call(self, ex, fn, args, st, label=None, panics=True, contract=None):
        """execute the body of a function of the crate; every reachable panic becomes an obligation"""
        f = fn if not isinstance(fn, str) else self.fn(fn)
        saved = len(ex.panics)
        outs = ex.run_fn(f, args, st)
        if contract:
            self.under[f.name] = contract
        self.take_panics(ex, saved, label or f.name, panics)
        return outs

    def take_panics(self, ex, saved, label, record=True):
        ps = ex.panics[saved:]
        del ex.panics[saved:]
        if record:
            for p in ps:
                self.obl("%s: no panic (%s)" % (label, p.msg), p.where, "panic", p.facts, bnot(p.cond))
        return ps

    # ------------------------------------------------------------ obligations
    def obl(self, name, fn, kind, facts, goal):
        o = Obl(name, fn, kind, facts, goal)
        t = time.time()
        if self.deadline and t > self.deadline:
            o.status, o.how = "undecided", "time limit of the run"
        else:
            try:
                r = P.check(list(o.facts), o.goal)
                o.status, o.how, o.witness = r.status, r.how, r.witness
                if r.status == "refuted" and any(str(v).startswith(("exit!", "weak!")) for v in r.witness["vals"]):
                    # a loop exit kept as an arbitrary index: the assignment need not be reachable
                    o.status, o.how = "undecided", "counterexample uses an abstracted loop exit"
            except Unsupported as e:
                o.status, o.how = "undecided", str(e)
        o.wall = time.time() - t
        self.obls.append(o)
        return o

    def trial(self):
        """obligations of a guess: kept only when the guess is proved (keep), otherwise forgotten"""
        cx = self

        class Trial:
            def __enter__(self):
                self.saved, cx.obls = cx.obls, []
                return self

            def __exit__(self, ty, e, tb):
                self.obls, cx.obls = cx.obls, self.saved
                self.ok = ty is None and bool(self.obls) and all(o.status == "discharged" for o in self.obls)
                return False

            def keep(self):
                cx.obls += self.obls
        return Trial()

    def proved(self, name, fn, kind, how):
        o = Obl(name, fn, kind, (), TRUE)
        o.status, o.how = "discharged", how
        self.obls.append(o)

    def lean(self, what, theorem, file):
        """a theorem about the specification alone, proved in lemmas/ and checked here; without Lean it is an assumption"""
        import shutil, subprocess
        exe, path = shutil.which("lean"), os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lemmas", file)
        t = time.time()
        if exe:
            try:
                txt = open(path).read()
                r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
                m = re.search(r"'%s' depends on axioms: \[([^\]]*)\]" % re.escape(theorem), r.stdout)
                if r.returncode == 0 and m and {x.strip() for x in m.group(1).split(",")} <= {"propext", "Classical.choice", "Quot.sound"} \
                        and not re.search(r"\b(sorry|axiom|native_decide)\b", txt):
                    self.proved(what, "lemmas/%s: %s" % (file, theorem), "lemma", "Lean 4 + Mathlib")
                    self.obls[-1].wall = time.time() - t
                    P.STATS["lean"] = P.STATS.get("lean", 0) + 1
                    return True
            except (OSError, subprocess.TimeoutExpired):
                pass
        self.assumed.add(what + " (theorem %s of lemmas/%s: not checked in this run)" % (theorem, file))
        return False

    def equal(self, name, fn, facts, got, want, kind="post"):
        """got and want denote the same value"""
        for suffix, fs, g in parts(got, want, tuple(facts)):
            self.obl(name + suffix, fn, kind, fs, g)

    def equal_seq(self, name, fn, st, got, want, idx="i"):
        """same length and the same element at every index"""
        with set_facts(st.facts):
            if isinstance(got, It):
                got = got.rest()
            if isinstance(want, It):
                want = want.rest()
        self.equal(name, fn, st.facts, got, want)

    def cases(self, name, f, depth=0):
        """f(); where the code branches on a condition of the parameters inside a loop, once per truth value of it"""
        nobl, nund = len(self.obls), len(self.undecided)
        try:
            return f()
        except Unsupported as e:
            with set_facts(()):
                cs = [c for c in getattr(e, "split", ()) if not entails(c) and not entails(bnot(c))]
            if not cs or depth >= 3:
                raise
            c = cs[0]
        before = self.obls[:nobl], self.undecided[:nund]
        saved = TM.SPLIT
        got, und, r = [], [], None
        for case in (c, bnot(c)):
            self.obls, self.undecided = [], []
            TM.SPLIT = saved + (case,)
            try:
                with set_facts(Ctx.facts):
                    r = self.cases(name, f, depth + 1)
            except Unsupported as e:
                self.undecided.append(("%s [%s]" % (name, case), str(e)))
            finally:
                TM.SPLIT = saved
                for o in self.obls:
                    if not o.name.endswith("]"):
                        o.name += " [%s]" % (case,)
                got += self.obls
                und += self.undecided
                self.obls, self.undecided = list(before[0]), list(before[1])
        self.obls += got
        self.undecided += und
        return r

    def guard(self, name, f):
        """run f; anything outside the verifier's reach is recorded as undecided, never as a violation"""
        try:
            return self.cases(name, f)
        except Unsupported as e:
            self.undecided.append((name, str(e)))
        except (AssertionError, AttributeError, KeyError, IndexError, TypeError, ValueError, RecursionError,
                ZeroDivisionError, OverflowError, NameError, z3error) as e:
            tb = traceback.extract_tb(e.__traceback__)
            self.undecided.append((name, "verifier: %s: %s (%s)" % (type(e).__name__, e,
                                                                   "; ".join("%s:%d" % (x.name, x.lineno) for x in tb[-4:]))))
        return None

    def vacuity(self, name, facts):
        """the precondition is satisfiable"""
        ok = False
        try:
            ok = P.find_sat(list(facts))
        except Exception as e:
            self.notes.append("vacuity %s: %s" % (name, e))
        o = Obl("reachable: " + name, name, "vacuity", facts, TRUE)
        o.status, o.how = ("discharged", "witness") if ok else ("undecided", "no witness found for the precondition")
        self.obls.append(o)

    # ------------------------------------------------------------ streams implemented by the crate
    def stream(self, name, ex, it, st, want, regular=None, extra=3, fn=None, phases=None, peels=(0, 1)):
        """The iterator struct `it` yields exactly the sequence `want`: inductive invariant on its fields.
        regular: the number of calls covered by the invariant (default: all of want); phases: several such counts."""
        nxt = M_next(ex, it)
        self.under.setdefault(nxt.name, "the n-th call returns element n of: " + name)
        first = None
        for peel in peels:
            nobl = len(self.obls)
            try:
                return self._stream(name, ex, it, st, want, regular, extra, fn or nxt.name, nxt, peel, phases)
            except Unsupported as e:
                del self.obls[nobl:]
                first = first or e
        raise first

    def _stream(self, name, ex, it, st, want, regular, extra, fnname, nxt, peel, phases):
        st = st.clone()
        ref = ex.new_cell(it, st)
        L = want.len
        phases = list(phases) if phases else [L if regular is None else regular]
        done = ZERO_I
        fronts = [st]
        for _ in range(peel):
            fronts, done = self.calls(name, ex, nxt, ref, fronts, want, done, fnname)
            if phases[0] is not None:
                phases[0] = sub(phases[0], ONE_I)
        for ph in phases:
            if ph is None or not (is_num(ph) and nval(ph) == 0):
                nf = []
                for s in fronts:
                    if ph is not None:
                        s = s.clone()
                        with set_facts(s.facts):
                            if not entails(le(ZERO_I, ph)):
                                raise Unsupported("number of regular calls may be negative")
                    nf.append(self.phase(name, ex, nxt, ref, s, want, done, ph, fnname))
                fronts = nf
            if ph is None:
                return
            done = add(done, ph)
        for s in fronts:
            self.tail(name, ex, nxt, ref, s, want, done, extra, fnname)

    def calls(self, name, ex, nxt, ref, fronts, want, k, fnname):
        """one explicit call"""
        new = []
        for s in fronts:
            saved = len(ex.panics)
            outs = ex.run_fn(nxt, [ref], s, None, False)
            self.take_panics(ex, saved, name)
            for s3, v, tag in split_option(outs):
                if tag == 0:
                    if want.len is None:
                        self.obl("%s: the stream does not end" % name, fnname, "post", s3.facts, FALSE)
                    else:
                        self.obl("%s: ends only after the last element" % name, fnname, "post", s3.facts, le(want.len, k))
                    continue
                s4 = s3
                if want.len is not None:
                    o = self.obl("%s: no element beyond the last" % name, fnname, "post", s3.facts, lt(k, want.len))
                    if o.status != "discharged":
                        continue
                    s4 = s3.clone()
                    s4.assume(lt(k, want.len))
                with set_facts(s4.facts):
                    w = want.at(k)
                    vv = ex.close_refs(v, s4)
                self.equal("%s: element %s" % (name, k), fnname, s4.facts, vv.pay[1][0], w)
                new.append(s4)
        return new, add(k, ONE_I)

    def phase(self, name, ex, nxt, ref, st, want, off, count, fnname):
        last = {}
        saved = len(ex.panics)

        def step(s, j):
            outs = ex.run_fn(nxt, [ref], s, None, False)
            pre = len(s.facts)
            go, stop = [], []
            for s3, v, tag in split_option(outs):
                (go if tag == 1 else stop).append((s3, v))
            if not go:
                raise Unsupported("next() never returns an element")
            m = ex.merge_outcomes(go, pre)
            if len(m) != 1:
                raise Unsupported("next() with %d unmergeable outcomes" % len(m))
            s2, v = m[0]
            last["v"], last["s"], last["pre"], last["stop"] = v, s2, s.facts, stop
            return [s2], stop
        rec = None
        per = getattr(ex, "period", None)
        if per is not None:
            try:
                rec = ex.recur(step, st, count, per)
            except Unsupported:
                del ex.panics[saved:]
        if rec is None:
            rec = ex.recur(step, st, count)
        self.take_panics(ex, saved, name)
        v, s2, j = last["v"], last["s"], rec.j
        for s3, _ in last["stop"]:
            self.obl("%s: element m exists" % name, fnname, "inv", s3.facts, FALSE)
        with set_facts(s2.facts):
            w = want.at(add(off, j))
            v = ex.close_refs(v, s2)
        if 1 in v.pay and v.pay[1]:
            self.equal("%s: element m" % name, fnname, s2.facts, v.pay[1][0], w)
        self.proved("%s: invariant holds at the start and is preserved (%d fields)" % (name, len(rec.closed)), fnname, "inv",
                    "checked during inference")
        return rec.build(count, False, st.facts) if count is not None else None

    def tail(self, name, ex, nxt, ref, s0, want, k, extra, fnname):
        front = [s0]
        for e in range(extra + 1):
            front, k = self.calls(name, ex, nxt, ref, front, want, k, fnname)
            if not front:
                return
        raise Unsupported("the stream does not end where expected")

    # ------------------------------------------------------------ overrides
    def overrides(self, seeds):
        """The proofs speak about `next`.  A provided Iterator method that the crate overrides (nth, fold, ...), a hand-written
        Clone or a Drop of an iterator the property reaches can bypass it: [(type, what)]"""
        mir = self.mir
        odd = {}
        for (tr, ty, meth), fs in mir.methods.items():
            if ty is None:
                continue
            has_next = ("Iterator", ty, "next") in mir.methods
            if not has_next:
                continue
            if (tr == "Iterator" and meth != "next") or tr in ("Clone", "Drop", "DoubleEndedIterator", "ExactSizeIterator") \
                    or (tr is None and meth in ITER_METHODS):
                odd.setdefault(ty, set()).add(meth)
        if not odd:
            return []
        last = {}
        for n in mir.fns:
            last.setdefault(re.sub(r"::\{closure#\d+\}", "", n).split("::")[-1], []).append(n)
        todo, seen, types = list(seeds), set(), set()
        while todo:
            n = todo.pop()
            f = mir.fns.get(n)
            if f is None or n in seen:
                continue
            seen.add(n)
            txt = " ".join([f.header, f.ret, " ".join(map(str, f.types.values()))] + [" ".join(b) for b in f.blocks.values()])
            m = re.search(r"(<impl at [^>]+>)::", n)
            if m and m.group(1) in mir.impls:
                txt += " " + mir.impls[m.group(1)][1]
            w = set(re.findall(r"\w+", txt))
            types |= {t for t in odd if t in w}
            for x in w & set(last):
                for c in last[x]:
                    mm = re.search(r"(<impl at [^>]+>)::", c)
                    if mm and (mm.group(1) not in mir.impls or mir.impls[mm.group(1)][1] not in w):
                        continue
                    todo.append(c)
        return sorted((t, ", ".join(sorted(odd[t]))) for t in types)

    # ------------------------------------------------------------ report
    def report(self):
        used_std, used_fns, used_c = set(), set(), set()
        for ex in self.ex_all:
            used_std |= ex.used_std
            used_fns |= ex.used_fns
            used_c |= ex.used_contracts
        seeds = set(used_fns)
        for c in used_c | set(self.under):
            tl = "::".join(c.split("::")[-2:])
            seeds |= {n for n in self.mir.fns if n == c or n.endswith("::" + tl) or n == tl}
        for ty, what in self.overrides(seeds):
            self.undecided.append(("%s has its own %s" % (ty, what), "consumers may bypass the code under contract"))
        d = sum(o.status == "discharged" for o in self.obls)
        return {"obligations": len(self.obls) + len(self.undecided), "discharged": d,
                "functions": sorted(used_fns), "contracts": self.under, "std": sorted(used_std),
                "callee_contracts": sorted(used_c), "notes": self.notes, "assumed": sorted(self.assumed),
                "undecided": self.undecided + [(o.name, o.how) for o in self.obls if o.status == "undecided"],
                "refuted": [{"name": o.name, "fn": o.fn, "kind": o.kind, "goal": clip(o.goal), "how": str(o.how)[:200],
                             "facts": [clip(f) for f in o.facts][:12], "witness": wit(o.witness)}
                            for o in self.obls if o.status == "refuted"],
                "backends": dict(P.STATS), "list": [(o.name, o.fn, o.kind, o.status, str(o.how)[:60], round(o.wall, 3)) for o in self.obls]}


ITER_METHODS = set("""next nth count last fold for_each collect map filter filter_map flat_map take skip step_by zip chain cycle enumerate
    peekable scan take_while skip_while map_while inspect by_ref sum product any all find position max min rev cloned copied partition
    try_fold try_for_each reduce unzip eq cmp fuse flatten advance_by next_chunk clone into_iter""".split()) - {"next"}


def clip(t):
    s = show(t) if isinstance(t, T) else str(t)
    return s if len(s) < 400 else s[:400] + "..."


def wit(w):
    if not w:
        return {}
    return {k: (float(v) if not isinstance(v, bool) else v) for k, v in w["vals"].items() if isinstance(v, (int, float, bool)) or hasattr(v, "numerator")}


def split_option(outs):
    """the Some and None cases of every outcome: (state, value, tag)"""
    r = []
    for s2, v in outs:
        if not isinstance(v, En):
            raise Unsupported("next() does not return an Option")
        for tag in (1, 0):
            s3 = s2.clone()
            with set_facts(s3.facts):
                s3.assume(eq(v.tag, num(tag)))
            with set_facts(s3.facts):
                if FALSE in s3.facts or entails(FALSE):
                    continue
            r.append((s3, En(v.ty, num(tag), v.pay), tag))
    return r


def M_next(ex, it):
    f = ex.mir.methods.get(("Iterator", it.name, "next"))
    if not f:
        raise Unsupported("no Iterator::next for %s" % it.name)
    return f[0]


def parts(a, b, facts, path=""):
    """[(suffix, facts, goal)] whose conjunction is a == b"""
    if isinstance(a, PRef) and not isinstance(b, PRef):
        a = a.v
    if isinstance(b, PRef) and not isinstance(a, PRef):
        b = b.v
    if isinstance(a, It):
        a = a.rest()
    if isinstance(b, It):
        b = b.rest()
    with set_facts(facts):
        if isinstance(a, T) and isinstance(b, T):
            if a.sort == "B" or b.sort == "B":
                return [(path, facts, iff(a, b))]
            if a.sort != b.sort:
                a, b = toreal(a), toreal(b)
            return [(path, facts, eq(a, b))]
        if isinstance(a, (Tup, Struct)) and isinstance(b, (Tup, Struct)) and len(a.xs) == len(b.xs):
            r = []
            nm = ["re", "im"] if isinstance(a, Struct) and a.name == "Complex" else range(len(a.xs))
            for k, x, y in zip(nm, a.xs, b.xs):
                r += parts(x, y, facts, path + ".%s" % k)
            return r
        if isinstance(a, En) and isinstance(b, En):
            r = [(path + " variant", facts, eq(a.tag, b.tag))]
            for k in set(a.pay) & set(b.pay):
                f2 = tuple(facts) + ((eq(b.tag, num(k)),) if not is_num(b.tag) else ())
                if is_num(b.tag) and nval(b.tag) != k:
                    continue
                for x, y in zip(a.pay[k], b.pay[k]):
                    r += parts(x, y, f2, path)
            return r
        if isinstance(a, Byte) and isinstance(b, Byte):
            return [(path + " bit %d" % i, facts, iff(x, y)) for i, (x, y) in enumerate(zip(a.bits, b.bits))]
        if isinstance(a, Opq) and a.kind in ("arr1", "Box") and isinstance(b, Seq):
            a = a.xs[0]
        if isinstance(a, Seq) and isinstance(b, Seq):
            if (a.len is None) != (b.len is None):
                return [(path + " length (one is endless)", facts, FALSE)]
            r = []
            if a.len is not None:
                r.append((path + " length", facts, eq(a.len, b.len)))
                if is_num(a.len) and is_num(b.len) and nval(a.len) != nval(b.len):
                    return r
                n = b.len
                if is_num(n) and nval(n) <= 16:
                    for k in range(int(nval(n))):
                        r += parts(a.at(num(k)), b.at(num(k)), facts, path + "[%d]" % k)
                    return r
            i = fresh("i")
            f2 = list(facts) + [le(ZERO_I, i)]
            if b.len is not None:
                f2 += [lt(i, b.len)]
                if a.len is not b.len:
                    f2 += [eq(a.len, b.len)]
            f2 = tuple(St((), ()).assume(*f2).facts)
            if FALSE in f2:
                return r
            with set_facts(f2):
                x, y = a.at(i), b.at(i)
                r += parts(x, y, f2, path + "[%s]" % "i")
            return r
    raise Unsupported("comparison of %s with %s" % (type(a).__name__, type(b).__name__))


# ---------------------------------------------------------------- vocabulary of the specifications
def symseq(name, n, sort="R", kind="vec"):
    return Seq(n, gen=lambda i: app(name, (i,), sort), kind=kind)


def symcx(name, n):
    return Seq(n, gen=lambda i: Struct("Complex", (app(name + "r", (i,), "R"), app(name + "i", (i,), "R"))))


def sym_arr(name, n, N):
    """sequence of [T; N] lanes"""
    return Seq(n, gen=lambda i: Seq(N, gen=lambda k: app(name, (i, k), "R"), kind="array"))


def sgn(b):
    return ite(b, num(1, "R"), num(-1, "R"))


def omega(f, i, fs, phase=None):
    """cos/sin argument 2 pi f i / fs"""
    return mul(num(2, "R"), PI, f, rdiv(toreal(i), toreal(fs)))


def Sum(n, f):
    w = fresh("w")
    with with_facts([le(ZERO_I, w), lt(w, n)]):
        return sum_(n, w, f(w))
