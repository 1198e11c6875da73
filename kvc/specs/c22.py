from .common import *


def prove(cx):
    n = var("n")
    sq = lambda x, i: powi(x.at(i), 2)

    def ber():
        a, b = var("n"), var("nb")
        ex, st = base(cx, [le(ZERO_I, a), le(ZERO_I, b), lt(ZERO_I, mini(a, b))])
        t, r = bits(st, a, "t"), bits(st, b, "r")

        def want():
            l = mini(a, b)
            return mul(toreal(Sum(l, lambda i: ite(iff(t.at(i), r.at(i)), ZERO_I, ONE_I))), inv(l))
        post(cx, ex, "ber", [PRef(t), PRef(r)], st, want, "bit error rate")
        s0 = st.clone()
        for s, v in cx.call(ex, "ber", [PRef(t), PRef(r)], s0, "bit error rate"):
            cx.obl("the bit error rate lies in [0, 1]", "ber", "lemma", s.facts, band(le(num(0, "R"), v), le(v, num(1, "R"))))
        with set_facts(st.facts):
            pass
        for s, v in cx.call(ex, "ber", [PRef(t), PRef(t)], St({}, ()).assume(le(ONE_I, a)), "bit error rate"):
            cx.obl("a sequence has error rate 0 against itself", "ber", "lemma", s.facts, eq(v, num(0, "R")))
    cx.guard("ber", ber)

    def energies():
        fs = var("fs", "R")
        ex, st = base(cx, [le(ONE_I, n), lt(num(0, "R"), fs)])
        x = reals(st, n)
        post(cx, ex, "avg_energy", [PRef(x)], st, lambda: mul(Sum(n, lambda i: sq(x, i)), inv(n)), "average energy")
        post(cx, ex, "avg_energy_py", [x], st, lambda: mul(Sum(n, lambda i: sq(x, i)), inv(n)), "average energy (Python)")
        post(cx, ex, "energy", [It(x), fs], st, lambda: mul(Sum(n, lambda i: sq(x, i)), inv(fs)), "energy")
        post(cx, ex, "power", [It(x), fs], st, lambda: mul(Sum(n, lambda i: sq(x, i)), inv(n), inv(fs)), "power")
    cx.guard("energies", energies)

    def decibel():
        x = var("x", "R")
        ex, st = base(cx, [lt(num(0, "R"), x)])
        post(cx, ex, "db", [x], st, lambda: mul(num(10, "R"), app("log10", (x,), "R")), "db")
        ex, st = base(cx)
        post(cx, ex, "undb", [x], st, lambda: app("pow10", (mul(x, num(Fraction(1, 10), "R")),), "R"), "undb")
        for s, v in cx.call(ex, "undb", [x], st, "undb"):
            for s2, w in cx.call(ex, "db", [v], s, "db"):
                cx.obl("db inverts undb", "db", "lemma", s2.facts, eq(w, x))
        ex, st = base(cx, [lt(num(0, "R"), x)])
        for s, v in cx.call(ex, "db", [x], st, "db"):
            for s2, w in cx.call(ex, "undb", [v], s, "undb"):
                cx.obl("undb inverts db", "undb", "lemma", s2.facts, eq(w, x))
    cx.guard("decibel", decibel)
