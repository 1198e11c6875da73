from .common import *


def prove(cx):
    adaptors(cx, "inflate", "nintegrate_and_dump")
    K, R, fs, f = rate_vars()
    two = num(2)

    def go(sfx, n):
        ex, st = base(cx, lf(n) + rate_facts(K, R, f))
        if n is not None:
            cx.vacuity("QPSK rates and carrier", st.facts)
        m = bits(st, n)
        post(cx, ex, "qpsk::tx_qpsk_signal", [It(m), fs, R, f], st, lambda: qpsk_wave(m, K, fs, f), "QPSK waveform" + sfx)
        y = reals(st, n)
        post(cx, ex, "qpsk::rx_qpsk_signal", [It(y), fs, R, f], st, lambda: qpsk_decide(y, K, fs, f), "QPSK block decision" + sfx)
        w = qpsk_wave(m, K, fs, f)
        for s, v in cx.call(ex, "qpsk::rx_qpsk_signal", [It(w), fs, R, f], st, "QPSK round trip" + sfx):
            k = var("k")
            if n is not None:
                cx.obl("QPSK round trip: as many bits" + sfx, "qpsk::rx_qpsk_signal", "lemma", s.facts,
                       eq(v.rest().len, mul(two, idiv(n, two))))
            fsx = list(s.facts) + [le(ZERO_I, k)] + ([lt(k, idiv(n, two))] if n is not None else [])
            with set_facts(fsx):
                ph = lambda t: omega(f, add(mul(k, K), t), fs)
                cc = Sum(K, lambda t: powi(cos(ph(t)), 2))
                ss = Sum(K, lambda t: powi(sin(ph(t)), 2))
                cs = Sum(K, lambda t: mul(cos(ph(t)), sin(ph(t))))
            for part, e, off in (("first", cc, ZERO_I), ("second", ss, ONE_I)):
                fx = St({}, ()).assume(*fsx, lt(cs, e), lt(neg(cs), e)).facts
                with set_facts(fx):
                    b = v.rest().at(add(mul(two, k), off))
                    cx.obl("QPSK round trip: the %s bit of pair k is recovered when the cross-correlation is below the energy%s" % (part, sfx),
                           "qpsk::rx_qpsk_signal", "lemma", fx, iff(b, m.at(add(mul(two, k), off))))
    for sfx, n in ((" (finite)", var("n")), (" (endless)", None)):
        cx.guard("QPSK" + sfx, lambda: go(sfx, n))
