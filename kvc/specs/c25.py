from .common import *
from .. import dep as D, nd as ND


def shift(x, n):
    """rotation by ceil(n/2)"""
    p = idiv(add(n, ONE_I), num(2))
    return Seq(n, gen=lambda i: x.at(ite(lt(add(i, p), n), add(i, p), sub(add(i, p), n))))


def ham(k, n):
    return sub(num(Fraction("0.54"), "R"), mul(num(Fraction("0.46"), "R"), cos(mul(num(2, "R"), PI, toreal(k), inv(toreal(n))))))


def shiftc(ex, a, st):
    from ..std import as_seq
    with set_facts(st.facts):
        x = as_seq(ex, a[0], st)
        return shift(x, x.len)


def cmul(a, b):
    from ..std import arith
    return arith("mul", a, b)


def prove(cx):
    n, m, L, q, k = var("n"), var("m"), var("L"), var("q"), var("k")      # m: the property's np

    def strips():
        ex = cx.exec(dict(A.CONTRACTS))
        st = St({}, ()).assume(le(ONE_I, m), lt(m, n), le(add(n, m), L))
        s = reals(st, L, "s")
        MINUS = num(-1, "R")

        def seg(i):
            """shifted transform of the windowed segment at i"""
            x = Seq(m, gen=lambda w: C(mul(ham(w, m), s.at(add(i, w))), num(0, "R")))
            return shift(D.dft(x, m, MINUS), m)

        def demod(i, k):
            v = seg(i).at(k)
            th = mul(num(-2, "R"), PI, sub(toreal(k), mul(num(Fraction(1, 2), "R"), toreal(m))), toreal(i), inv(toreal(m)))
            z = cmul(v, C(cos(th), sin(th)))
            f = mul(s.at(add(i, idiv(m, num(2)))), ham(i, n))
            return C(*[mul(f, x) for x in z.xs])
        fn = "ssca::ssca_base"
        for s1, v in cx.call(ex, fn, [s, n, m], st, "strips", contract="entry (q, k) is the shifted transform over time of the demodulated, windowed strip k"):
            with set_facts(s1.facts):
                v = ND.nd(ex, v, s1)
                rows, cols = v.xs
            cx.obl("n rows", fn, "post", s1.facts, eq(rows.len, n))
            cx.obl("np columns", fn, "post", s1.facts, eq(cols, m))
            cq, ck = lt(add(q, idiv(add(n, ONE_I), num(2))), n), lt(add(k, idiv(add(m, ONE_I), num(2))), m)
            for lq, fq in (("low", cq), ("high", bnot(cq))):
                for lk, fk in (("low", ck), ("high", bnot(ck))):
                    s2 = St({}, s1.facts).assume(le(ZERO_I, q), lt(q, n), le(ZERO_I, k), lt(k, m), fq, fk)
                    with set_facts(s2.facts):
                        want = shift(D.dft(Seq(n, gen=lambda i: demod(i, k)), n, MINUS), n).at(q)
                        got = rows.at(q).at(k)
                    cx.equal("entry (q, k), %s q, %s k" % (lq, lk), fn, s2.facts, got, want)
    cx.guard("strips", strips)


    # ------------------------------------------------ the mapped form
    r0, c0, q0, k0 = var("r0"), var("c0"), var("q0"), var("k0")
    rows, cols = add(m, ONE_I), add(mul(num(2), n), ONE_I)
    half = num(Fraction(1, 2), "R")
    zero = C(num(0, "R"), num(0, "R"))

    def place(q, k):
        x = sub(mul(half, toreal(k), inv(toreal(m))), mul(half, toreal(q), inv(toreal(n))))
        y = add(mul(toreal(k), inv(toreal(m))), mul(toreal(q), inv(toreal(n))))
        return f2u(mul(toreal(m), add(x, half))), f2u(mul(toreal(n), y))
    pre = [le(ONE_I, m), lt(m, n)]
    rq = [le(ZERO_I, q), lt(q, n), le(ZERO_I, k), lt(k, m)]
    sx = ND.arr2(Seq(n, gen=lambda i: Seq(m, gen=lambda k: C(app("sxr", (i, k), "R"), app("sxi", (i, k), "R")))), m)
    fn = "ssca::ssca_mapped"

    def geometry():
        r, c = place(q, k)
        cx.obl("every entry has a row", fn, "lemma", pre + rq, band(le(ZERO_I, r), lt(r, rows)))
        cx.obl("every entry has a column", fn, "lemma", pre + rq, band(le(ZERO_I, c), lt(c, cols)))
        # two entries of one row of the strips never share a place
        d = var("d")
        g = inv(toreal(m))
        for f in apart(q, k, d):
            cx.obl(f[0], fn, "lemma", pre + rq + [le(ONE_I, d), lt(add(k, d), m)] + f[1], f[2])

    def apart(q, k, d):
        step = mul(toreal(n), toreal(d), inv(toreal(m)))
        return [("columns of k and k + d are more than one apart", [], lt(num(1, "R"), step)),
                ("columns of k and k + d differ", [lt(num(1, "R"), step)], bnot(eq(place(q, k)[1], place(q, add(k, d))[1])))]
    cx.guard("geometry", geometry)

    def mapped(label, facts, value, inst, want):
        calls = []

        def ssca(ex, a, st):
            calls.append((st, a))
            return sx
        ex = cx.exec(dict(A.CONTRACTS, **{"ssca::ssca_base": ssca}))
        st = St({}, ()).assume(*pre, le(ZERO_I, L), *facts)
        s = reals(st, L, "s")
        nest = Nest(cx, fn, label, (rows, cols), r0, c0, value, pre, (n, m), inst)
        ex.loop_hook = nest
        outs = cx.call(ex, fn, [s, n, m], st, label, contract="entry (q, k) is moved to its place, every other place is zero")
        nest.release()
        for s1, v in outs:
            cx.obl(label + ": one strip spectral correlation", fn, "post", s1.facts, B(len(calls) == 1))
            for s0, a in calls:
                cx.equal(label + ": of the signal", fn, s0.facts, a[0], s)
                cx.obl(label + ": of the same sizes", fn, "post", s0.facts, band(eq(a[1], n), eq(a[2], m)))
            v = ND.nd(ex, v, s1)
            cx.obl(label + ": np + 1 rows", fn, "post", s1.facts, eq(v.xs[0].len, rows))
            cx.obl(label + ": 2 n + 1 columns", fn, "post", s1.facts, eq(v.xs[1], cols))
            with set_facts(s1.facts):
                x = v.xs[0].at(r0).at(c0)
            cx.equal(label, fn, s1.facts, x, want)
    cell = lambda q, k: sx.xs[0].at(q).at(k)
    before = lambda a, b, q, k: bor(lt(a, q), band(eq(a, q), lt(b, k)))
    pl0 = place(q0, k0)
    inr = [le(ZERO_I, r0), lt(r0, rows), le(ZERO_I, c0), lt(c0, cols)]

    def hit_inst(q, k):
        r, c = place(q, k)
        return [implies(lt(q0, q), bnot(band(eq(r, r0), eq(c, c0)))),                       # hypothesis: no later row lands here
                implies(band(eq(q, q0), bnot(eq(k, k0))), bnot(eq(c, c0)))]                 # proved under geometry
    cx.guard("placed", lambda: mapped("the entry of the last strip row that maps to a place is found there",
             [le(ZERO_I, q0), lt(q0, n), le(ZERO_I, k0), lt(k0, m), eq(r0, pl0[0]), eq(c0, pl0[1])] + inr,
             lambda q, k: (before(q0, k0, q, k), cell(q0, k0)), hit_inst, cell(q0, k0)))

    def miss_inst(q, k):
        r, c = place(q, k)
        return [bnot(band(eq(r, r0), eq(c, c0)))]                                           # hypothesis: nothing lands here
    cx.guard("empty places", lambda: mapped("a place nothing maps to is zero", inr, lambda q, k: (TRUE, zero), miss_inst, zero))


class Nest:
    """Invariant of two nested counting loops that write an array: what they leave at one chosen place."""

    def __init__(self, cx, fn, label, shape, r0, c0, value, pre, bounds, inst):
        """value(q, k): element at (r0, c0) once the body has run for all (q', k') before (q, k), or None: arbitrary"""
        self.cx, self.fn, self.label = cx, fn, label
        self.shape, self.r0, self.c0, self.value, self.pre, self.bounds, self.inst = shape, r0, c0, value, pre, bounds, inst
        self.stack, self.quiet, self.done, self.held = [], 0, 0, []

    def obl(self, what, kind, facts, goal):
        # kept back until both loops have been met: the invariant means nothing for loops of another shape
        if not self.quiet:
            self.held.append(("%s: %s" % (self.label, what), self.fn, kind, facts, goal))

    def release(self):
        if self.done < 2:
            raise Unsupported("no two nested loops")
        for o in self.held:
            self.cx.obl(*o)

    def array(self, q, k):
        nm = fresh("cell").args[0]
        rows, cols = self.shape
        cond, v = self.value(q, k)

        def el(r, c):
            old = C(app(nm + "r", (r, c), "R"), app(nm + "i", (r, c), "R"))
            here = band(eq(r, self.r0), eq(c, self.c0), cond)
            return C(*[ite(here, x, y) for x, y in zip(v.xs, old.xs)])
        return ND.arr2(Seq(rows, gen=lambda r: Seq(cols, gen=lambda c: el(r, c))), cols)

    def check(self, what, facts, arr, q, k):
        rows, cols = self.shape
        self.obl("%s: rows" % what, "inv", facts, eq(arr.xs[0].len, rows))
        self.obl("%s: columns" % what, "inv", facts, eq(arr.xs[1], cols))
        cond, v = self.value(q, k)
        f2 = tuple(facts) + (cond,) if cond is not TRUE else tuple(facts)
        with set_facts(f2):
            x = arr.xs[0].at(self.r0).at(self.c0)
        for nm, a, b in zip(("re", "im"), x.xs, v.xs):
            self.obl("%s: the chosen place, %s" % (what, nm), "inv", f2, eq(a, b))

    def __call__(self, ex, fr, header, step, st):
        depth = len(self.stack)
        if depth > 1:
            return None
        saved = len(ex.panics)
        self.quiet += 1
        self.stack.append(self.stack[-1] if self.stack else ZERO_I)
        try:
            self.stack[-1:] = [ZERO_I]
            cont, exits = step(st)
        finally:
            self.quiet -= 1
            self.stack.pop()
            del ex.panics[saved:]
        if len(cont) != 1:
            return None
        ch = {}
        for k in st.cells:
            if k in cont[0].cells:
                ex.diff(st.cells[k], cont[0].cells[k], (k,), ch)
        arrs = [p for p in ch if ch[p] == "seq"]
        cnts = [p for p in ch if ch[p] == "t"]
        if len(arrs) != 1 or len(cnts) != 1 or len(ch) != 2 or len(arrs[0]) != 2 or not ND.is2(st.cells[arrs[0][0]]):
            return None
        ac, cp = arrs[0][0], cnts[0]
        j = fresh("row" if depth == 0 else "col")
        hi = self.bounds[depth]
        if getp(st.cells[cp[0]], cp[1:]) is not ZERO_I:
            return None
        at = (lambda t: (t, ZERO_I)) if depth == 0 else (lambda t, q=self.stack[-1]: (q, t))
        s = St(dict(st.cells), st.facts).assume(le(ZERO_I, j), le(j, hi))
        inst = self.inst(*at(j)) if depth == 1 else []
        s.assume(*inst)
        self.check(("rows" if depth == 0 else "columns") + ", at the start", st.facts, st.cells[ac], *at(ZERO_I))
        s.cells[cp[0]] = setp(s.cells[cp[0]], cp[1:], j)
        with set_facts(s.facts):
            s.cells[ac] = self.array(*at(j))
        self.stack.append(j)
        try:
            cont, exits = step(s)
        finally:
            self.stack.pop()
        for s2 in cont:
            c2 = {}
            for k in s.cells:
                if k in s2.cells:
                    ex.diff(s.cells[k], s2.cells[k], (k,), c2)
            if set(c2) - {arrs[0], cp}:
                raise Unsupported("loop changes more than expected")
            what = ("rows" if depth == 0 else "columns") + ", one more"
            with set_facts(s2.facts):
                got = getp(s2.cells[cp[0]], cp[1:])
            self.obl(what + ": counts by one", "inv", s2.facts, eq(got, add(j, ONE_I)))
            self.obl(what + ": stays within the count", "inv", s2.facts, le(add(j, ONE_I), hi))
            self.check(what, s2.facts, s2.cells[ac], *at(add(j, ONE_I)))
        out = []
        for o in exits:
            self.obl("ends at the count", "inv", o[2].facts, eq(j, hi))
            o[2].assume(eq(j, hi))
            out.append(o)
        self.done += 1
        return out
