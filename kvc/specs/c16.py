from .common import *

H = Fraction(1, 2)


def prove(cx):
    adaptors(cx, "inflate", "chunks", "integrate")
    K, R, fs, fc = rate_vars()
    lo, hi = var("lo", "R"), var("hi", "R")
    d = num(Fraction(1, 40), "R")
    up, down = mul(fc, add(num(1, "R"), d)), mul(fc, sub(num(1, "R"), d))

    def go(sfx, n):
        ex, st = base(cx, lf(n) + rate_facts(K, R) + [le(mul(num(2, "R"), hi), toreal(fs))])
        m = bits(st, n)
        y = reals(st, n)
        nl = None if n is None else mul(n, K)

        def wave(f1, f0):
            return lambda: Seq(nl, gen=lambda i: cos(omega(ite(m.at(idiv(i, K)), f1, f0), i, fs)))
        post(cx, ex, "fsk::tx_bfsk_signal", [It(m), fs, R, lo, hi], st, wave(hi, lo), "binary FSK" + sfx)
        post(cx, ex, "fsk::tx_mfsk_signal", [It(m), fs, R, lo, hi, var("nf")], st, wave(hi, lo), "FSK over a band" + sfx)
        with set_facts(st.facts):
            for k, x in ((2, (hi, lo)), (3, (hi, lo, var("other", "R")))):
                post(cx, ex, "fsk::tx_fsk_signal", [It(m), fs, R, PRef(lit(x))], st, wave(hi, lo), "FSK with a frequency list of %d%s" % (k, sfx))
        st2 = St({}, ()).assume(*(lf(n) + rate_facts(K, R)))
        post(cx, ex, "fm::tx_fsk", [It(m), fs, R, fc], st2, wave(up, down), "carrier-relative FSK" + sfx)

        def fm():
            return Seq(nl, gen=lambda i: cos(add(omega(fc, i, fs), mul(num(Fraction(1, 20), "R"), Sum(add(i, ONE_I), lambda w: y.at(idiv(w, K)))))))
        post(cx, ex, "fm::tx_fm", [It(y), fs, R, fc], st2, fm, "FM" + sfx)

        def decide():
            nb = None if n is None else A.cdiv(n, K)

            def gen(k):
                w = K if n is None else mini(K, sub(n, mul(k, K)))

                def energy(f):
                    e = num(0, "R")
                    for trig in (cos, sin):
                        e = add(e, powi(Sum(w, lambda j: mul(y.at(add(mul(k, K), j)), trig(omega(f, j, fs)))), 2))
                    return e
                return le(energy(down), energy(up))
            return Seq(nb, gen=gen)
        post(cx, ex, "fm::rx_fsk", [It(y), fs, R, fc], st2, decide, "noncoherent FSK decision" + sfx)
    for sfx, n in ((" (finite)", var("n")), (" (endless)", None)):
        cx.guard("FSK" + sfx, lambda: go(sfx, n))
