from .common import *

R_ = lambda x: num(Fraction(x), "R")


def prove(cx):
    n, beta, T, fs = var("n"), var("beta", "R"), var("T", "R"), var("fs", "R")
    zero, one, four = R_(0), R_(1), R_(4)
    dom = [le(ZERO_I, n), lt(zero, T), lt(zero, fs), le(zero, beta), le(beta, one)]

    def h(t):
        """the root-raised-cosine impulse response, continuous at its two removable singularities"""
        x = mul(t, inv(T))
        y = mul(four, beta, x)
        generic = mul(add(sin(mul(PI, x, sub(one, beta))), mul(y, cos(mul(PI, x, add(one, beta))))),
                      inv(mul(T, PI, x, sub(one, mul(y, y)))))
        q = mul(PI, inv(mul(four, beta)))
        edge = mul(beta, inv(mul(T, sqrt(R_(2)))),
                   add(mul(add(one, mul(R_(2), inv(PI))), sin(q)), mul(sub(one, mul(R_(2), inv(PI))), cos(q))))
        peak = mul(inv(T), add(one, mul(beta, sub(mul(four, inv(PI)), one))))
        te = mul(T, inv(mul(four, beta)))
        sing = band(bnot(eq(beta, zero)), bor(eq(t, te), eq(t, neg(te))))
        return ite(eq(t, zero), peak, ite(sing, edge, generic))

    def time(i):
        return mul(sub(toreal(i), mul(toreal(n), R_("1/2"))), inv(fs))

    def taps():
        ex, st = base(cx, dom)
        post(cx, ex, "filters::rrcosfilter", [n, beta, T, fs], st, lambda: Seq(n, gen=lambda i: h(time(i))), "root-raised-cosine taps")
    cx.guard("taps", taps)

    def symmetric():
        ex, st = base(cx, dom)
        i = var("i")
        st = st.assume(le(ONE_I, i), lt(i, n))
        for s, v in cx.call(ex, "filters::rrcosfilter", [n, beta, T, fs], st, "symmetry"):
            with set_facts(s.facts):
                v = v.rest() if isinstance(v, It) else v
                a, b = v.at(i), v.at(sub(n, i))
            cx.obl("the taps are symmetric about the centre: tap i equals tap n-i", "rrcosfilter", "lemma", s.facts, eq(a, b))
    cx.guard("symmetry", symmetric)
