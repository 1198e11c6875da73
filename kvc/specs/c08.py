from .common import *


def prove(cx):
    adaptors(cx, "inflate", "integrate_and_dump")
    K, R, fs, f = rate_vars()

    def go(sfx, n):
        ex, st = base(cx, lf(n) + rate_facts(K, R, f))
        if n is not None:
            cx.vacuity("BPSK rates and carrier", st.facts)
        m = bits(st, n)
        post(cx, ex, "bpsk::tx_bpsk_signal", [It(m), fs, R, f], st, lambda: bpsk_wave(m, K, fs, f), "BPSK waveform" + sfx)
        y = reals(st, n)
        post(cx, ex, "bpsk::rx_bpsk_signal", [It(y), fs, R, f], st, lambda: bpsk_decide(y, K, fs, f), "BPSK block decision" + sfx)
        # round trip, from the two contracts
        w = bpsk_wave(m, K, fs, f)
        for s, v in cx.call(ex, "bpsk::rx_bpsk_signal", [It(w), fs, R, f], st, "BPSK round trip" + sfx):
            k = var("k")
            fsx = list(s.facts) + [le(ZERO_I, k)] + ([lt(k, n)] if n is not None else [])
            with set_facts(fsx):
                if n is not None:
                    cx.obl("BPSK round trip: as many bits" + sfx, "bpsk::rx_bpsk_signal", "lemma", s.facts, eq(v.rest().len, n))
                e = Sum(K, lambda t: powi(cos(omega(f, add(mul(k, K), t), fs)), 2))
                fsx = St({}, ()).assume(*fsx, lt(num(0, "R"), e)).facts
            with set_facts(fsx):
                cx.obl("BPSK round trip: bit k is recovered when the carrier is not zero over symbol k" + sfx, "bpsk::rx_bpsk_signal", "lemma",
                       fsx, iff(v.rest().at(k), m.at(k)))
    for sfx, n in ((" (finite)", var("n")), (" (endless)", None)):
        cx.guard("BPSK" + sfx, lambda: go(sfx, n))
