from .common import *
from .. import dep as D
from .. import std as S

N8, S7, SEED, HALF = num(8), num(7), num(64), num(Fraction(1, 2), "R")
Z0 = num(0, "R")


def pick(xs, k):
    """xs[k], k an index term of 0 .. len(xs)-1"""
    if is_num(k):
        return xs[int(nval(k))]
    out = xs[-1]
    for i in range(len(xs) - 2, -1, -1):
        out = C(*[ite(eq(k, num(i)), a, b) for a, b in zip(xs[i].xs, out.xs)])
    return out


def frame_values(m, q, r):
    """the 8 carrier values of frame q before the permutation; r: bits in the frame"""
    ch = [app("cheb", (HALF, add(mul(N8, q), num(k + 1))), "R") for k in range(8)]
    return [C(ch[0], Z0)] + [C(mul(ch[k + 1], sgn(m.at(add(mul(S7, q), num(k))))) if k < r else Z0, Z0) for k in range(7)]


def tx_frame(m, q, r):
    vals = frame_values(m, q, r)
    sym = [pick(vals, D.perm(SEED, q, N8, num(k))) for k in range(8)]
    rot = lit([sym[(w + 4) % 8] for w in range(8)])
    y = [D.dft_at(rot, N8, num(k), num(1, "R")) for k in range(8)]
    y = [C(*[mul(v, num(Fraction(1, 8), "R")) for v in z.xs]) for z in y]
    return y[6:] + y


def rx_frame(y, q):
    x = lit([y.at(add(mul(num(10), q), num(2 + w))) for w in range(8)])
    d = [D.dft_at(x, N8, num(k), num(-1, "R")) for k in range(8)]
    rot = [d[(k + 4) % 8] for k in range(8)]
    s = [pick(rot, D.perminv(SEED, q, N8, num(k))) for k in range(8)]
    (ar, ai) = s[0].xs
    return [add(mul(ar, z.xs[0]), mul(ai, z.xs[1])) for z in s[1:]]


def sign(w, facts):
    with set_facts(facts):
        return S.sign_positive(w)


def prove(cx):
    # the sign bit of a zero statistic is that of the floating-point expression; the same expression has the same zero
    S._zs[0] = None
    cx.assumed.add("the sign bit of an exactly zero decision statistic is a function of its value expression (conj(reference) times carrier, real part)")
    adaptors(cx, "wchunks", "chunks", "Chebyshev", "HopTable", "inflate")
    Q, q, f = var("Q"), var("q"), var("f")
    tx0, rx0 = "fh_ofdm_dcsk::tx_baseband_fh_ofdm_dcsk_signal", "fh_ofdm_dcsk::rx_baseband_fh_ofdm_dcsk_signal"

    def tx(sfx, r):
        fin = r is not None
        facts = [le(ZERO_I, Q)] if fin else []
        ex, st = base(cx, facts)
        m = bits(st, add(mul(S7, Q), num(r)) if fin else None)
        for s, v in cx.call(ex, tx0, [It(m)], st, "frames" + sfx, contract="every frame is the prefixed inverse DFT of the permuted chaos-spread carriers"):
            with set_facts(s.facts):
                v = v.rest()
            if fin:
                cx.obl("length" + sfx, tx0, "post", s.facts, eq(v.len, mul(num(10), add(Q, ONE_I))))
            for lab, qq, rr, fx in (("frame q", q, 7, [le(ZERO_I, q)] + ([lt(q, Q)] if fin else [])), ("last frame", Q, r, [])):
                if (qq is Q and not fin) or (qq is q and fin and r != 7):
                    continue
                s2 = St({}, s.facts).assume(*fx)
                for p in range(10):
                    with set_facts(s2.facts):
                        w = tx_frame(m, qq, rr)[p]
                        g = v.at(add(mul(num(10), qq), num(p)))
                    cx.equal("sample %d of %s%s" % (p, lab, sfx), tx0, s2.facts, g, w)
    cx.guard("transmitter (endless)", lambda: tx(" (endless)", None))
    for r in range(1, 8):
        cx.guard("transmitter, last frame of %d" % r, lambda: tx(" (last frame of %d bits)" % r, r))

    def rx(sfx, fin):
        ex, st = base(cx, [le(ZERO_I, f)] if fin else [])
        y = cplx(st, mul(num(10), f) if fin else None, "y")
        for s, v in cx.call(ex, rx0, [It(y)], st, "decisions" + sfx, contract="the seven decisions of every frame"):
            with set_facts(s.facts):
                v = v.rest()
            if fin:
                cx.obl("length" + sfx, rx0, "post", s.facts, eq(v.len, mul(S7, f)))
            s2 = St({}, s.facts).assume(le(ZERO_I, q), *([lt(q, f)] if fin else []))
            for p in range(7):
                with set_facts(s2.facts):
                    w = rx_frame(y, q)[p]
                    g = v.at(add(mul(S7, q), num(p)))
                cx.obl("decision %d of frame q is the sign%s" % (p, sfx), rx0, "post", s2.facts, iff(g, sign(w, s2.facts)))
    for sfx, fin in ((" (finite)", True), (" (endless)", False)):
        cx.guard("receiver" + sfx, lambda: rx(sfx, fin))

    def passband(sfx, n):
        K, R, fs, fc = rate_vars()
        low, high, nf = var("low", "R"), var("high", "R"), var("nf")
        seen = {}
        ex = cx.exec(opaque_stages(seen, {tx0: ("z", "C", None)}))
        with set_facts([le(ONE_I, K), le(ONE_I, R)]):
            half = idiv(fs, num(2))
            st = St({}, ()).assume(le(ONE_I, K), le(ONE_I, R), le(ZERO_I, var("nz")), le(ONE_I, nf), le(f2u(high), half), le(f2u(fc), half), *lf(n))
        m = bits(st, n)
        z = symcx("z", None if n is None else var("nz"))
        hop = A.e_hop(low, high, nf, SEED)
        fn = "fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal"
        post(cx, ex, fn, [It(m), low, high, nf, fs, R], st, lambda: on_carrier(z, K, fs, lambda i: hop.at(idiv(i, K)), -1),
             "each baseband sample on its hop frequency" + sfx)
        fn = "fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal_2"
        post(cx, ex, fn, [It(m), fs, R, fc], st, lambda: on_carrier(z, K, fs, fc, -1), "each baseband sample on the carrier" + sfx)
        for k, (s, got, _, _) in enumerate(seen.get(tx0, [])):
            cx.equal_seq("the message is sent by the baseband transmitter (%d)%s" % (k + 1, sfx), fn, s, got, m)
        cx.obl("one baseband signal each" + sfx, fn, "post", [], B(len(seen.get(tx0, [])) == 2))
    for sfx, n in ((" (finite)", var("n")), (" (endless)", None)):
        cx.guard("passband" + sfx, lambda: passband(sfx, n))
