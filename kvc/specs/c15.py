from .common import *

SEED = num(64)


def prove(cx):
    adaptors(cx, "HopTable")
    r, f0, f1, fc, bw = (var(x, "R") for x in ("r", "f0", "f1", "fc", "bw"))
    S_ = var("fs")

    def chirp(r, fs, f0, f1, n=None):
        n = f2u(rdiv(toreal(fs), r)) if n is None else n

        def g(i):
            t = mul(toreal(i), inv(r), inv(n))
            return cos(mul(num(2, "R"), PI, add(f0, mul(sub(f1, f0), r, t, num(Fraction(1, 2), "R"))), t))
        return Seq(n, gen=g)

    def plain():
        ex, st = base(cx, [lt(num(0, "R"), r), le(ONE_I, S_)])
        post(cx, ex, "fh_css::linear_chirp", [r, S_, f0, f1], st, lambda: chirp(r, S_, f0, f1), "linear chirp")
        half = mul(bw, num(Fraction(1, 2), "R"))
        for nm, a, b in (("up", sub(fc, half), add(fc, half)), ("down", add(fc, half), sub(fc, half))):
            post(cx, ex, "fh_css::linear_%schirp_centered" % nm, [r, fc, bw, S_], st, lambda: chirp(r, S_, a, b), "centered %s-chirp" % nm)
        cx.vacuity("chirp rate and sample rate", st.facts)
    cx.guard("chirps", plain)

    K, R, fs, _ = rate_vars()
    N, low, high = var("N"), var("low", "R"), var("high", "R")

    def go(sfx, n):
        ex, st = base(cx, lf(n) + rate_facts(K, R) + [le(ONE_I, N), le(low, high),
                                                      le(mul(num(2, "R"), high), toreal(fs))])
        m = bits(st, n)
        with set_facts(st.facts):
            hop = A.e_hop(low, high, N, SEED)

        def want():
            def g(i):
                k, j = idiv(i, K), imod(i, K)
                h = hop.at(k)
                half = mul(sub(high, low), inv(N), num(Fraction(1, 2), "R"))
                a = ite(m.at(k), sub(h, half), add(h, half))
                b = ite(m.at(k), add(h, half), sub(h, half))
                return chirp(toreal(R), fs, a, b, K).at(j)
            return Seq(None if n is None else mul(n, K), gen=g)
        post(cx, ex, "fh_css::tx_fh_css_signal", [It(m), fs, R, low, high, N], st, want, "one chirp per bit on its hop" + sfx)
    for sfx, n in ((" (finite)", var("n")), (" (endless)", None)):
        cx.guard("hopped chirps" + sfx, lambda: go(sfx, n))
