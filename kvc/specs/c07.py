from .common import *


def prove(cx):
    def bpsk(sfx, n):
        ex, st = base(cx, lf(n))
        m = bits(st, n)
        s, tx = post(cx, ex, "bpsk::tx_baseband_bpsk_signal", [It(m)], st,
                     lambda: Seq(n, gen=lambda i: C(sgn(m.at(i)), num(0, "R"))), "baseband BPSK sends (+-1, 0)" + sfx)
        z = cplx(st, n)
        post(cx, ex, "bpsk::rx_baseband_bpsk_signal", [It(z)], st,
             lambda: Seq(n, gen=lambda i: le(num(0, "R"), z.at(i).xs[0])), "baseband BPSK decides by the sign of re" + sfx)
        # round trip over the contract of the transmitter
        w = Seq(n, gen=lambda i: C(sgn(m.at(i)), num(0, "R")))
        post(cx, ex, "bpsk::rx_baseband_bpsk_signal", [It(w)], st, m, "baseband BPSK round trip" + sfx)

    def qpsk(sfx, n):
        ex, st = base(cx, lf(n))
        m = bits(st, n)
        two = num(2)
        n2 = None if n is None else idiv(n, two)
        r2 = sqrt(num(2, "R"))
        sym = lambda: Seq(n2, gen=lambda k: C(mul(r2, sgn(m.at(mul(two, k)))), mul(r2, sgn(m.at(add(mul(two, k), ONE_I))))))
        post(cx, ex, "qpsk::tx_baseband_qpsk_signal", [It(m)], st, sym, "baseband QPSK sends (+-sqrt 2, +-sqrt 2)" + sfx)
        z = cplx(st, n)
        nn = None if n is None else mul(two, n)
        post(cx, ex, "qpsk::rx_baseband_qpsk_signal", [It(z)], st,
             lambda: Seq(nn, gen=lambda i: ite(eq(imod(i, two), ZERO_I), le(num(0, "R"), z.at(idiv(i, two)).xs[0]),
                                               le(num(0, "R"), z.at(idiv(i, two)).xs[1]))), "baseband QPSK decides by the two signs" + sfx)
        with set_facts(st.facts):
            w = sym()
        nb = None if n is None else mul(two, n2)
        post(cx, ex, "qpsk::rx_baseband_qpsk_signal", [It(w)], st, lambda: Seq(nb, gen=lambda i: m.at(i)),
             "baseband QPSK round trip (whole pairs)" + sfx)
    for f in (bpsk, qpsk):
        for sfx, n in ((" (finite)", var("n")), (" (endless)", None)):
            cx.guard(f.__name__ + sfx, lambda: f(sfx, n))
