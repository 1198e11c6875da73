from .common import *


def prove(cx):
    adaptors(cx, "LogisticMap")
    R_ = lambda a, b: num(Fraction(a, b), "R")
    mu = R_(39, 10)

    def go(sfx, n):
        ex, st = base(cx, lf(n))
        m, y = bits(st, n), reals(st, n)
        with set_facts(st.facts):
            c, d = A.e_logistic(R_(1, 10), mu), A.e_logistic(R_(15, 100), mu)
        post(cx, ex, "csk::tx_baseband_csk", [It(m)], st, lambda: Seq(n, gen=lambda k: ite(m.at(k), c.at(k), d.at(k))), "CSK sends the chosen orbit" + sfx)
        rx = lambda z: Seq(z.len, gen=lambda k: lt(absr(sub(z.at(k), c.at(k))), absr(sub(z.at(k), d.at(k)))))
        post(cx, ex, "csk::rx_baseband_csk", [It(y)], st, lambda: rx(y), "CSK decides for the strictly nearer orbit" + sfx)
        with set_facts(st.facts):
            z = Seq(n, gen=lambda k: ite(m.at(k), c.at(k), d.at(k)))
        for s, v in cx.call(ex, "csk::rx_baseband_csk", [It(z)], st, "CSK round trip" + sfx):
            k = var("k")
            fx = St({}, s.facts).assume(le(ZERO_I, k), *([lt(k, n)] if n is not None else []))
            with set_facts(fx.facts):
                fx.assume(bnot(eq(c.at(k), d.at(k))))
            with set_facts(fx.facts):
                cx.obl("CSK round trip where the orbits differ" + sfx, "csk::rx_baseband_csk", "lemma", fx.facts, iff(v.rest().at(k), m.at(k)))
                if n is not None:
                    cx.obl("CSK round trip: as many bits" + sfx, "csk::rx_baseband_csk", "lemma", s.facts, eq(v.rest().len, n))
        two = num(2)

        def tx():
            return Seq(None if n is None else mul(two, n),
                       gen=lambda i: mul(c.at(idiv(i, two)), ite(eq(imod(i, two), ZERO_I), num(1, "R"), sgn(m.at(idiv(i, two))))))
        post(cx, ex, "dcsk::tx_baseband_dcsk", [It(m)], st, tx, "DCSK sends reference and information" + sfx)

        def drx(z):
            return Seq(None if z.len is None else idiv(z.len, two),
                       gen=lambda k: lt(num(0, "R"), mul(z.at(mul(two, k)), z.at(add(mul(two, k), ONE_I)))))
        post(cx, ex, "dcsk::rx_baseband_dcsk", [It(y)], st, lambda: drx(y), "DCSK decides by the sign of the product" + sfx)
        with set_facts(st.facts):
            z = tx()
        for s, v in cx.call(ex, "dcsk::rx_baseband_dcsk", [It(z)], st, "DCSK round trip" + sfx):
            k = var("k")
            fx = St({}, s.facts).assume(le(ZERO_I, k), *([lt(k, n)] if n is not None else []))
            with set_facts(fx.facts):
                if n is not None:
                    cx.obl("DCSK round trip: as many bits" + sfx, "dcsk::rx_baseband_dcsk", "lemma", s.facts, eq(v.rest().len, n))
                fx.assume(bnot(eq(c.at(k), num(0, "R"))))
            with set_facts(fx.facts):
                cx.obl("DCSK round trip" + sfx, "dcsk::rx_baseband_dcsk", "lemma", fx.facts, iff(v.rest().at(k), m.at(k)))
    for sfx, n in ((" (finite)", var("n")), (" (endless)", None)):
        cx.guard("chaos shift keying" + sfx, lambda: go(sfx, n))

    # the orbit of 0.1 never reaches 0: it stays inside (0, 1)
    def pos():
        x = var("x", "R")
        s0 = St({}, ()).assume(lt(num(0, "R"), x), lt(x, num(1, "R")))
        nx = A.logistic_step(mu, x)
        cx.obl("the carrier stays above 0", "chaos::LogisticMap::next", "lemma", s0.facts, lt(num(0, "R"), nx))
        cx.obl("the carrier stays below 1", "chaos::LogisticMap::next", "lemma", s0.facts, lt(nx, num(1, "R")))
        for a in (R_(1, 10), R_(15, 100)):
            cx.obl("the carrier starts inside (0, 1)", "chaos::LogisticMap::new", "lemma", (), band(lt(num(0, "R"), a), lt(a, num(1, "R"))))
    cx.guard("non-zero carrier", pos)
