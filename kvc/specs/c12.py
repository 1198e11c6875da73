"""W(a, b): the Walsh function, true at (0, 0); for a power of two d and a, b < d:
W(a + d, b) = W(a, b + d) = W(a, b), W(a + d, b + d) = not W(a, b).

The doubling loop of HadamardMatrix::new carries the invariant: the size d is a power of two, 1 <= d <= n, and the upper left
d x d block is W.  Orthogonality of W is a separate induction on d."""
from .common import *
from .. import std as S
from ..exec import terms_of

NEW, KEY = "HadamardMatrix::new", "HadamardMatrix::key"


def W(a, b):
    return app("walsh", (a, b), "B")


def quadrants(a, b, d):
    """the definition of W at (a, b) < d"""
    return [iff(W(add(a, d), b), W(a, b)), iff(W(a, add(b, d)), W(a, b)), iff(W(add(a, d), add(b, d)), bnot(W(a, b)))]


def is_matrix(v):
    if not isinstance(v, Seq):
        return False
    try:
        r = v.at(ZERO_I)
        if not isinstance(r, Seq):
            return False
        x = r.at(ZERO_I)
    except Unsupported:
        return False
    return isinstance(x, T) and x.sort == "B"


def prove(cx):
    n, d, a, b, c, r = var("n"), var("d"), var("a"), var("b"), var("c"), var("r")

    # facts on powers of two, on 64-bit words
    def words():
        import z3
        x, y = z3.BitVecs("x y", 64)
        pw = lambda x: z3.And(x != 0, x & (x - 1) == 0)

        def go(name, goal):
            s = z3.Solver()
            s.add(z3.Not(goal))
            if s.check() == z3.unsat:
                cx.proved(name, NEW, "lemma", "z3 (64-bit vectors)")
            else:
                cx.undecided.append((name, "z3"))
        go("x & (x-1) is zero exactly for 0 and the powers of two",
           z3.Implies(x != 0, (x & (x - 1) == 0) == z3.Or(*[x == (1 << k) for k in range(64)])))
        go("powers of two x < y: 2x is one, and at most y", z3.Implies(z3.And(pw(x), pw(y), z3.ULT(x, y)),
           z3.And(pw(x + x), z3.ULE(x + x, y), z3.UGE(x + x, x))))
    cx.guard("powers of two", words)

    def lemma(d):
        return implies(band(S.pow2(d), S.pow2(n), lt(d, n)), band(le(add(d, d), n), S.pow2(add(d, d))))

    def invariant(ex, fr, header, step, st):
        """the loop invariant, where the state has a matrix of bits and a size that starts at 1"""
        mats = [k for k, v in st.cells.items() if is_matrix(v)]
        ones = [k for k, v in st.cells.items() if v is ONE_I]
        if len(mats) != 1:
            return None
        M = mats[0]
        for I in ones:
            with set_facts(st.facts):
                s = St(dict(st.cells), st.facts).assume(le(ONE_I, d), le(d, n), S.pow2(d), lemma(d))
            nm = fresh("rest").args[0]

            def block(r, c):
                return ite(band(lt(r, d), lt(c, d)), W(r, c), app(nm, (r, c), "B"))
            s.cells[I] = d
            s.cells[M] = Seq(n, gen=lambda r: Seq(n, gen=lambda c: block(r, c)), kind=st.cells[M].kind)
            saved = len(ex.panics)
            cont, exits = step(s)
            ok = bool(cont)
            for s2 in cont:
                with set_facts(s2.facts):
                    ok = ok and eq(s2.cells[I], add(d, d)) is TRUE
                for k in s2.cells:
                    if k in (I, M) or k not in s.cells:
                        continue
                    ch = {}
                    try:
                        ex.diff(s.cells[k], s2.cells[k], (), ch)
                    except Unsupported:
                        ch = {1: 1}
                    ok = ok and not ch
            if not ok:
                del ex.panics[saved:]
                continue
            # holds at the start
            def shape(what, facts, m):
                with set_facts(facts):
                    cx.obl("%s: n rows" % what, NEW, "inv", facts, eq(m.len, n))
                    f2 = St({}, facts).assume(le(ZERO_I, r), lt(r, n)).facts
                    with set_facts(f2):
                        cx.obl("%s: n columns" % what, NEW, "inv", f2, eq(m.at(r).len, n))
            f0 = st.facts
            cx.obl("at the start: the size is 1 and at most n", NEW, "inv", f0, band(le(ONE_I, n), S.pow2(ONE_I)))
            shape("at the start", f0, st.cells[M])
            with set_facts(f0):
                x = st.cells[M].at(ZERO_I).at(ZERO_I)
            cx.obl("at the start: the first element is W(0, 0)", NEW, "inv", tuple(f0) + (W(ZERO_I, ZERO_I),), iff(x, W(ZERO_I, ZERO_I)))
            # is preserved
            for s2 in cont:
                m = s2.cells[M]
                shape("one more doubling", s2.facts, m)
                cx.obl("one more doubling: the size stays a power of two up to n, and grows", NEW, "inv", s2.facts,
                       band(le(ONE_I, s2.cells[I]), le(s2.cells[I], n), S.pow2(s2.cells[I]), lt(d, s2.cells[I])))
                for what, i, k in (("old block", a, b), ("lower block", add(a, d), b), ("right block", a, add(b, d)), ("new block", add(a, d), add(b, d))):
                    f2 = St({}, s2.facts).assume(le(ZERO_I, a), lt(a, d), le(ZERO_I, b), lt(b, d), *quadrants(a, b, d)).facts
                    with set_facts(f2):
                        g, w = m.at(i).at(k), W(i, k)
                    cx.obl("one more doubling: the %s is W" % what, NEW, "inv", f2, iff(g, w))
            out = []
            for o in exits:
                cx.obl("the loop ends with the full size", NEW, "inv", o[2].facts, eq(d, n))
                o[2].assume(eq(d, n))
                out.append(o)
            found.append(I)
            return out
        return None
    found = []

    def new():
        ex, st = base(cx, [le(ONE_I, n), S.pow2(n)])
        ex.loop_hook = invariant
        for s, v in cx.call(ex, cx.method(None, "HadamardMatrix", "new"), [n], st, "new", contract="the n x n matrix W for a power of two n"):
            m = v.xs[0]
            f2 = St({}, s.facts).assume(le(ZERO_I, r), lt(r, n), le(ZERO_I, c), lt(c, n)).facts
            with set_facts(f2):
                cx.obl("n rows of n codes", NEW, "post", f2, band(eq(m.len, n), eq(m.at(r).len, n)))
                cx.obl("the matrix is W", NEW, "post", f2, iff(m.at(r).at(c), W(r, c)))
        if not found:
            cx.undecided.append(("new", "no loop with the expected state"))
    cx.guard("new", new)

    def sizes():
        ex, st = base(cx, [le(ZERO_I, n), bnot(S.pow2(n))])
        ex.loop_hook = invariant
        for s, v in cx.call(ex, cx.method(None, "HadamardMatrix", "new"), [n], st, "other sizes", panics=False):
            cx.obl("a size that is not a power of two is rejected", NEW, "post", s.facts, FALSE)
        else:
            cx.proved("sizes: every path was considered", NEW, "post", "execution")
    cx.guard("sizes", sizes)

    def key():
        code = var("code")
        ex, st = base(cx, [le(num(2), n), le(ZERO_I, code)])
        m = Seq(n, gen=lambda r: Seq(n, gen=lambda c: app("m", (r, c), "B")))
        for s, v in cx.call(ex, cx.method(None, "HadamardMatrix", "key"), [PRef(Struct("HadamardMatrix", (m,))), code], st, "lookup", contract="row 1 + code mod (n - 1)"):
            with set_facts(s.facts):
                row = S.strip(ex, v, s)
                want = Seq(n, gen=lambda c: app("m", (add(ONE_I, imod(code, sub(n, ONE_I))), c), "B"))
            cx.equal_seq("lookup", KEY, s, row, want)
        k = add(ONE_I, imod(code, sub(n, ONE_I)))
        cx.obl("never the first row, always a row", KEY, "lemma", st.facts, band(le(ONE_I, k), lt(k, n)))
    cx.guard("lookup", key)

    # orthogonality, by induction on d
    def sg(x):
        return sgn(x)

    def ortho():
        u, v = var("u"), var("v")                 # rows below d
        fx = [le(ONE_I, d), S.pow2(d), le(ZERO_I, u), lt(u, d), le(ZERO_I, v), lt(v, d)]
        z = num(0, "R")

        def prod(i, k, c):
            return mul(sg(W(i, c)), sg(W(k, c)))
        w = var("w")
        fw = fx + [le(ZERO_I, w), lt(w, d)]
        inst = quadrants(u, w, d) + quadrants(v, w, d)
        for x in (0, 1):
            for y in (0, 1):
                i, k = add(u, mul(num(x), d)), add(v, mul(num(y), d))
                # columns w and w + d of rows i, k
                two = add(prod(i, k, w), prod(i, k, add(w, d)))
                want = mul(num(2 if x == y else 0, "R"), prod(u, v, w))
                cx.obl("rows u%s, v%s: columns w and w+d together" % ("+d" * x, "+d" * y), "W", "lemma", fw + inst, eq(two, want))
        # so the sum over 2d columns is twice (0 times) the sum over d columns of rows u, v
        S_ = Sum(d, lambda c: mul(num(2, "R"), prod(u, v, c)))
        cx.obl("same half, different rows: 2 * 0", "W", "lemma", fx + [bnot(eq(u, v)), eq(Sum(d, lambda c: prod(u, v, c)), z)], eq(S_, z))
        cx.obl("different halves: 0", "W", "lemma", fx, eq(Sum(d, lambda c: mul(z, prod(u, v, c))), z))
        cx.obl("one row only for d = 1", "W", "lemma", [eq(d, ONE_I)] + fx[2:], eq(u, v))
        # splitting a sum over m + e columns, by induction on e
        m, e = var("m"), var("e")
        f = lambda c: app("f", (c,), "R")
        fe = [le(ZERO_I, m), le(ZERO_I, e)]
        split = lambda e: eq(Sum(add(m, e), f), add(Sum(m, f), Sum(e, lambda c: f(add(m, c)))))
        step = lambda k, g: eq(Sum(add(k, ONE_I), g), add(Sum(k, g), g(k)))
        cx.obl("a sum over m + 0", "sum", "lemma", fe, split(ZERO_I))
        e1 = add(e, ONE_I)
        cx.obl("a sum over m + e + 1", "sum", "lemma", fe + [split(e), step(add(m, e), f), step(e, lambda c: f(add(m, c)))], split(e1))
        # positions that agree
        cx.obl("agreement of two signs is (1 + product) / 2", "W", "lemma", [],
               eq(ite(iff(W(u, w), W(v, w)), num(1, "R"), z), mul(num(Fraction(1, 2), "R"), add(num(1, "R"), prod(u, v, w)))))
        agree = Sum(d, lambda c: mul(num(Fraction(1, 2), "R"), add(num(1, "R"), prod(u, v, c))))
        cx.obl("orthogonal rows agree in half of the positions", "W", "lemma", fx + [eq(Sum(d, lambda c: prod(u, v, c)), z)],
               eq(agree, mul(toreal(d), num(Fraction(1, 2), "R"))))
        # first row and column
        cx.obl("first row and column: W(0, 0)", "W", "lemma", [W(ZERO_I, ZERO_I)], W(ZERO_I, ZERO_I))
        cx.obl("first row", "W", "lemma", [le(ONE_I, d), le(ZERO_I, b), lt(b, d), W(ZERO_I, b)] + quadrants(ZERO_I, b, d), W(ZERO_I, add(b, d)))
        cx.obl("first column", "W", "lemma", [le(ONE_I, d), le(ZERO_I, b), lt(b, d), W(b, ZERO_I)] + quadrants(b, ZERO_I, d), W(add(b, d), ZERO_I))
    cx.guard("orthogonality", ortho)
