from .common import *


def windows(y, s, fs, f):
    """symbol m-1, m = 1, 2, ..: sums of y cos and -y sin over samples (m-1)s+1 .. ms that exist"""
    n = None if y.len is None else ite(le(y.len, ZERO_I), ZERO_I, sub(A.cdiv(sub(add(y.len, s), ONE_I), s), ONE_I))

    def gen(k):
        lo = add(mul(k, s), ONE_I)
        hi = add(lo, s)
        if y.len is not None:
            hi = mini(hi, y.len)

        def tot(trig):
            return Sum(sub(hi, lo), lambda w: mul(y.at(add(lo, w)), trig(omega(f, add(lo, w), fs))))
        return C(tot(cos), tot(negsin))
    return Seq(n, gen=gen)


def prove(cx):
    adaptors(cx, "inflate", "take_every", "nonvolve")
    K, R, fs, f = rate_vars()
    N, p = var("N"), var("p")
    tx0, rx0 = "ofdm::tx_baseband_ofdm_signal", "ofdm::rx_baseband_ofdm_signal"
    q0, q1 = "qpsk::tx_baseband_qpsk_signal", "qpsk::rx_baseband_qpsk_signal"

    def go(sfx, n):
        facts = [le(ONE_I, K), le(ONE_I, R)] + lf(n)
        seen = {}
        two = num(2)
        c = opaque_stages(seen, {q0: ("sym", "C", lambda n: idiv(n, two)), tx0: ("z", "C", None)})
        ex = cx.exec(c)
        st = St({}, ()).assume(*facts, le(ZERO_I, var("nz")))
        m = bits(st, n)
        fn = "ofdm::tx_ofdm_qpsk_signal"
        z = symcx("z", None if n is None else var("nz"))
        post(cx, ex, fn, [It(m), N, p, fs, R, f], st, lambda: on_carrier(z, K, fs, f), "baseband OFDM on the carrier" + sfx)
        staged(cx, seen, q0, fn, m, [], "the message is mapped to QPSK symbols" + sfx)
        staged(cx, seen, tx0, fn, symcx("sym", None if n is None else idiv(n, two)), [N, p], "the QPSK symbols are sent by baseband OFDM" + sfx)

        seen = {}
        c = opaque_stages(seen, {rx0: ("z", "C", None), q1: ("b", "B", lambda n: mul(two, n))})
        ex = cx.exec(c)
        y = reals(st, n)
        fn = "ofdm::rx_ofdm_qpsk_signal"
        post(cx, ex, fn, [It(y), N, p, fs, R, f], st, lambda: symseq("b", None if n is None else mul(two, var("nz")), "B"), "bits of the QPSK receiver" + sfx)
        staged(cx, seen, rx0, fn, lambda: windows(y, K, fs, f), [N, p], "window sums go to the OFDM receiver" + sfx)
        staged(cx, seen, q1, fn, z, [], "its symbols go to the QPSK receiver" + sfx)
    for sfx, n in ((" (finite)", var("n")), (" (endless)", None)):
        cx.guard("passband OFDM" + sfx, lambda: go(sfx, n))
