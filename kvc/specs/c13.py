from .common import *
from ..dep import perm, perminv, shuf


def prove(cx):
    adaptors(cx, "HopTable")
    # shuf(s, c, n, .) is a permutation of 0..n: induction on c
    s, c, n, k = var("seed"), var("c"), var("n"), var("k")
    dom = [le(ONE_I, n), le(ZERO_I, c), le(ZERO_I, k), lt(k, n)]
    F = lambda c, k: shuf(s, c, n, k)
    W = "HopTable::next"

    def lem():
        from .. import prove as PV
        # without the lemma itself: only the axioms of single shuffles
        saved = {x: PV.APP_AXIOMS.pop(x) for x in ("shuf",)}
        try:
            p = perm(s, c, n, k)
            st = St({}, ()).assume(*dom)
            inr = lambda x: band(le(ZERO_I, x), lt(x, n))
            # range
            cx.obl("shuffles stay in range: no shuffle", W, "lemma", st.facts, inr(F(ZERO_I, k)))
            ih = implies(inr(p), inr(F(c, p)))
            cx.obl("shuffles stay in range: one more shuffle", W, "lemma", St({}, st.facts).assume(ih).facts, inr(F(c, p)))
            # injective
            k2 = var("k2")
            p2 = perm(s, c, n, k2)
            d2 = St({}, st.facts).assume(le(ZERO_I, k2), lt(k2, n))
            cx.obl("shuffles are injective: no shuffle", W, "lemma", d2.assume(eq(F(ZERO_I, k), F(ZERO_I, k2))).facts, eq(k, k2))
            d2 = St({}, st.facts).assume(le(ZERO_I, k2), lt(k2, n))
            ih = implies(band(inr(p), inr(p2), eq(F(c, p), F(c, p2))), eq(p, p2))
            cx.obl("shuffles are injective: one more shuffle", W, "lemma",
                   d2.assume(ih, eq(F(c, p), F(c, p2))).facts, eq(k, k2))
        finally:
            PV.APP_AXIOMS.update(saved)
    cx.guard("shuffles are permutations", lem)

    # every cycle visits every grid point once
    def cycle():
        N, low, high, m, i, i2 = var("N"), var("low", "R"), var("high", "R"), var("m"), var("i"), var("i2")
        st = St({}, ()).assume(le(ONE_I, N), le(ZERO_I, m), le(ZERO_I, i), lt(i, N), le(ZERO_I, i2), lt(i2, N))
        with set_facts(st.facts):
            h = A.e_hop(low, high, N, var("seed"))
            a, b = h.at(add(mul(m, N), i)), h.at(add(mul(m, N), i2))
            ka, kb = (shuf(var("seed"), add(m, ONE_I), N, x) for x in (i, i2))
            cx.obl("hop m*n+i is a grid point", W, "lemma", st.facts, band(eq(a, A.lin(low, high, N, ka)), le(ZERO_I, ka), lt(ka, N)))
            st2 = St({}, st.facts).assume(eq(ka, kb))
            cx.obl("two hops of a cycle are different grid points", W, "lemma", st2.facts, eq(i, i2))
    cx.guard("every cycle visits every frequency", cycle)
    # linspace itself
    def ls():
        n = var("n")
        ex, st = base(cx, [le(ZERO_I, n)])
        a, b = var("a", "R"), var("b", "R")
        post(cx, ex, "linspace", [a, b, n], st, lambda: Seq(n, gen=lambda k: A.lin(a, b, n, k)), "linspace")
    cx.guard("linspace", ls)
