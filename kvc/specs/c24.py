from .common import *


def prove(cx):
    n = var("n")
    R_ = lambda x: num(Fraction(x), "R")

    def grid():
        a, b = var("a", "R"), var("b", "R")
        ex, st = base(cx, [le(ZERO_I, n)])
        post(cx, ex, "linspace", [a, b, n], st, lambda: Seq(n, gen=lambda k: A.lin(a, b, n, k)), "grid")
        w = lambda k: sub(R_("0.54"), mul(R_("0.46"), cos(mul(num(2, "R"), PI, toreal(k), inv(n)))))
        post(cx, ex, "hamming_window", [n], st, lambda: Seq(n, gen=w), "Hamming window")
        post(cx, ex, "hamming_window_complex", [n], st, lambda: Seq(n, gen=lambda k: Struct("Complex", (w(k), num(0, "R")))), "complex Hamming window")
    cx.guard("grids", grid)

    def shift():
        ex, st = base(cx, [le(ZERO_I, n)])
        x = reals(st, n)

        def want(x):
            p = idiv(add(n, ONE_I), num(2))
            return Seq(n, gen=lambda i: x.at(ite(lt(add(i, p), n), add(i, p), sub(add(i, p), n))))
        post(cx, ex, "fftshift", [PRef(x)], st, lambda: want(x), "spectrum shift rotates by ceil(n/2)")
        s0 = st.clone()
        ref = ex.new_cell(x, s0)
        for s, v in cx.call(ex, "fftshift_mut", [ref], s0, "in-place spectrum shift"):
            with set_facts(s.facts):
                got = ex.get(ref, s)
            cx.equal("in-place spectrum shift rotates by ceil(n/2)", "fftshift_mut", s.facts, got, want(x))
        # twice is the identity for even lengths
        h = var("h")
        s0 = St({}, ()).assume(le(ZERO_I, h))
        n2 = mul(num(2), h)
        y = reals(s0, n2, "y")
        for s, v in cx.call(ex, "fftshift", [PRef(y)], s0, "shift twice"):
            for s2, w in cx.call(ex, "fftshift", [PRef(v)], s, "shift twice"):
                cx.equal("an even shift applied twice is the identity", "fftshift", s2.facts, w, y)
    cx.guard("spectrum shift", shift)

    def erf():
        ex, st = base(cx)
        x = var("x", "R")
        co = ["-1.26551223", "1.00002368", "0.37409196", "0.09678418", "-0.18628806", "0.27886807", "-1.13520398",
              "1.48851587", "-0.82215223", "0.17087277"]

        def tau(x):
            t = inv(add(num(1, "R"), mul(R_("1/2"), absr(x))))
            e = neg(powi(x, 2))
            for k, c in enumerate(co):
                e = add(e, mul(R_(c), powi(t, k)))
            return mul(t, exp(e))
        post(cx, ex, "erf", [x], st, lambda: ite(le(num(0, "R"), x), sub(num(1, "R"), tau(x)), sub(tau(x), num(1, "R"))), "erf follows the approximation")
        for s, v in cx.call(ex, "erf", [x], st, "erf"):
            for s2, w in cx.call(ex, "erf", [neg(x)], s, "erf"):
                s3 = s2.clone()
                with set_facts(s3.facts):
                    s3.assume(bnot(eq(x, num(0, "R"))))
                cx.obl("erf is odd apart from 0", "erf", "lemma", s3.facts, eq(w, neg(v)))
            for s2, w in cx.call(ex, "erfc", [x], s, "erfc"):
                cx.obl("erf + erfc = 1", "erfc", "lemma", s2.facts, eq(add(v, w), num(1, "R")))
    cx.guard("erf", erf)
