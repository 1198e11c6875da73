from .common import *

SEED = num(64)


def prove(cx):
    adaptors(cx, "HopTable", "inflate", "chunks", "integrate_and_dump")
    K, R, fs, _ = rate_vars()
    N, low, high, fc = var("N"), var("low", "R"), var("high", "R"), var("fc", "R")

    def go(sfx, n):
        ex, st = base(cx, lf(n) + rate_facts(K, R) + [le(ONE_I, N), le(low, high),
                                                      le(mul(num(2, "R"), high), toreal(fs))])
        m = bits(st, n)
        y = reals(st, n)
        with set_facts(st.facts):
            hop = A.e_hop(low, high, N, SEED)

        def wave(m):
            return Seq(None if m.len is None else mul(m.len, K),
                       gen=lambda i: mul(sgn(m.at(idiv(i, K))), cos(omega(hop.at(idiv(i, K)), imod(i, K), fs))))

        def corr_k(y, k):
            return Sum(K, lambda w: mul(y.at(add(mul(k, K), w)), cos(omega(hop.at(k), w, fs))))

        def decide(y):
            nb = None if y.len is None else idiv(y.len, K)
            return Seq(nb, gen=lambda k: lt(num(0, "R"), corr_k(y, k)))
        post(cx, ex, "fh::tx_fh_bpsk_signal", [It(m), low, high, N, fs, R], st, lambda: wave(m), "one BPSK symbol per hop" + sfx)
        post(cx, ex, "fh::rx_fh_bpsk_signal", [It(y), low, high, N, fs, R], st, lambda: decide(y), "block k is demodulated on hop k" + sfx)
        w = wave(m)
        for s, v in cx.call(ex, "fh::rx_fh_bpsk_signal", [It(w), low, high, N, fs, R], st, "hopped BPSK round trip" + sfx):
            k = var("k")
            fx = St({}, s.facts).assume(le(ZERO_I, k), *([lt(k, n)] if n is not None else []))
            with set_facts(fx.facts):
                if n is not None:
                    cx.obl("hopped BPSK round trip: as many bits" + sfx, "fh::rx_fh_bpsk_signal", "lemma", s.facts, eq(v.rest().len, n))
                # the energy of the carrier over one symbol: time 0 contributes cos(0)^2 = 1
                body = lambda t: powi(cos(omega(hop.at(k), t, fs)), 2)
                e = Sum(K, body)
                cx.obl("the first sample of every hop is 1" + sfx, "fh::tx_fh_bpsk_signal", "lemma", fx.facts, eq(body(ZERO_I), num(1, "R")))
                # law of finite sums: the first term and the rest (a sum of squares)
                fx.assume(eq(e, add(body(ZERO_I), Sum(sub(K, ONE_I), lambda t: body(add(t, ONE_I))))))
                cx.obl("every hop carries energy" + sfx, "fh::tx_fh_bpsk_signal", "lemma", fx.facts, lt(num(0, "R"), e))
                fx.assume(lt(num(0, "R"), e))
            with set_facts(fx.facts):
                cx.obl("hopped BPSK round trip: bit k is recovered" + sfx, "fh::rx_fh_bpsk_signal", "lemma", fx.facts,
                       iff(v.rest().at(k), m.at(k)))
        # the mixer variant
        st2 = St({}, st.facts).assume(le(mul(num(2, "R"), fc), toreal(fs)))

        def mixer():
            def g(i):
                k, j = idiv(i, K), imod(i, K)
                t = add(k, j)
                return mul(sgn(m.at(k)), cos(omega(fc, t, fs)), cos(omega(hop.at(k), t, fs)))
            return Seq(None if n is None else mul(n, K), gen=g)
        post(cx, ex, "fh::tx_fh_bpsk_signal_old", [It(m), low, high, N, fs, R, fc], st2, mixer, "the mixer variant" + sfx)
    for sfx, n in ((" (finite)", var("n")), (" (endless)", None)):
        cx.guard("hopped BPSK" + sfx, lambda: go(sfx, n))
