from .common import *
from .. import dep as D

TWO = num(2)


class Ofdm:
    """N = 2h subcarriers, p pilots (1 <= p <= N - 2), prefix N div 4"""

    def __init__(self, N, p):
        self.N, self.p = N, p
        self.h = idiv(N, TWO)
        self.back = idiv(sub(p, ONE_I), TWO)
        self.front = sub(sub(p, ONE_I), self.back)
        self.M = sub(N, p)
        self.cp = idiv(N, num(4))
        self.F = add(N, self.cp)

    def carrier(self, t):
        """subcarrier of the t-th symbol of a frame"""
        x = add(t, self.front)
        return ite(lt(x, self.h), x, add(x, ONE_I))

    def loaded(self, z, q, x):
        """value on subcarrier x of frame q of the symbols z"""
        def sym(t, c):
            k = add(mul(q, self.M), t)
            c = band(c, le(ZERO_I, t), lt(t, self.M), *([lt(k, z.len)] if z.len is not None else []))
            if c is FALSE or entails(bnot(c)):
                return None, c
            with with_facts([c]):
                v = z.at(k)
            return v, c
        lo, cl = sym(sub(x, self.front), lt(x, self.h))
        hi, ch = sym(sub(x, add(self.front, ONE_I)), lt(self.h, x))
        zero = num(0, "R")
        out = []
        for k in range(2):
            v = zero
            if hi is not None:
                v = ite(ch, hi.xs[k], v)
            if lo is not None:
                v = ite(cl, lo.xs[k], v)
            out.append(v)
        return C(*out)

    def spectrum(self, z, q):
        """half-rotated carriers of frame q"""
        return Seq(self.N, gen=lambda w: self.loaded(z, q, rot(w, self.h, self.N)))

    def tx(self, z):
        n = None if z.len is None else mul(A.cdiv(z.len, self.M), self.F)

        def gen(i):
            q, j = idiv(i, self.F), imod(i, self.F)
            k = ite(lt(j, self.cp), add(sub(j, self.cp), self.N), sub(j, self.cp))
            y = D.dft_at(self.spectrum(z, q), self.N, k, num(1, "R"))
            return C(*[mul(v, inv(self.N)) for v in y.xs])
        return Seq(n, gen=gen)

    def rx(self, y):
        """whole frames"""
        n = None if y.len is None else mul(idiv(y.len, self.F), self.M)

        def gen(i):
            q, t = idiv(i, self.M), imod(i, self.M)
            fr = Seq(self.N, gen=lambda w: y.at(add(mul(q, self.F), self.cp, w)))
            return D.dft_at(fr, self.N, rot(self.carrier(t), self.h, self.N), num(-1, "R"))
        return Seq(n, gen=gen)


def rot(x, h, N):
    """(x + h) mod N for 0 <= x < N"""
    c = lt(x, sub(N, h))
    if c is TRUE or entails(c):
        return add(x, h)
    if c is FALSE or entails(bnot(c)):
        return sub(add(x, h), N)
    return ite(c, add(x, h), sub(add(x, h), N))


def at(cx, name, fn, st, v, want, idx):
    """v and want agree at index idx"""
    with set_facts(st.facts):
        g, w = v.at(idx), want.at(idx)
    cx.equal(name, fn, st.facts, g, w)


def prove(cx):
    adaptors(cx, "chunks")
    h, p, Q, r, f, q, j = var("h"), var("p"), var("Q"), var("r"), var("f"), var("q"), var("j")
    N = mul(TWO, h)
    facts = [le(ONE_I, p), le(p, sub(N, TWO)), le(TWO, h)]

    def tx(sfx, fin):
        st0 = St({}, ()).assume(*facts)
        with set_facts(st0.facts):
            o = Ofdm(N, p)
        if fin:
            st0.assume(le(ZERO_I, Q), le(ONE_I, r), le(r, o.M))
        ex, st = base(cx, st0.facts)
        n = add(mul(Q, o.M), r) if fin else None
        z = cplx(st, n, "z")
        fn = "ofdm::tx_baseband_ofdm_signal"
        for s, v in cx.call(ex, fn, [It(z), N, p], st, "frames" + sfx, contract="every frame is the prefixed inverse DFT of its loaded, half-rotated carriers"):
            with set_facts(s.facts):
                v, want = v.rest(), o.tx(z)
            if fin:
                cx.obl("length" + sfx, fn, "post", s.facts, eq(v.len, want.len))
            for lab, qq, fx in ((", full frame", q, [le(ZERO_I, q)] + ([lt(q, Q)] if fin else [])), (", last frame", Q, [])):
                if qq is Q and not fin:
                    continue
                for part, fj in (("prefix", [le(ZERO_I, j), lt(j, o.cp)]), ("body", [le(o.cp, j), lt(j, o.F)])):
                    s2 = St({}, s.facts).assume(*fx, *fj)
                    at(cx, "%s of frame%s%s" % (part, lab, sfx), fn, s2, v, want, add(mul(qq, o.F), j))

    def rx(sfx, fin):
        st0 = St({}, ()).assume(*facts)
        with set_facts(st0.facts):
            o = Ofdm(N, p)
        ex, st = base(cx, st0.facts + ((le(ZERO_I, f),) if fin else ()))
        y = cplx(st, mul(f, o.F) if fin else None, "y")
        post(cx, ex, "ofdm::rx_baseband_ofdm_signal", [It(y), N, p], st, lambda: o.rx(y), "symbols of whole frames" + sfx)
    cx.lean("discrete Fourier inversion: the forward N-point transform of 1/N times the inverse one of X is X", "dft_inversion", "Fourier.lean")
    for sfx, fin in ((" (finite)", True), (" (endless)", False)):
        cx.guard("OFDM transmitter" + sfx, lambda: tx(sfx, fin))
        cx.guard("OFDM receiver" + sfx, lambda: rx(sfx, fin))

    def trip(sfx, fin):
        st0 = St({}, ()).assume(*facts)
        with set_facts(st0.facts):
            o = Ofdm(N, p)
        if fin:
            st0.assume(le(ZERO_I, Q), le(ONE_I, r), le(r, o.M))
        n = add(mul(Q, o.M), r) if fin else None
        z = cplx(st0, n, "z")
        w, t = var("w"), var("t")
        for lab, qq, fx in ((", full frame", q, [le(ZERO_I, q)] + ([lt(q, Q)] if fin else [])), (", last frame", Q, [])):
            if qq is Q and not fin:
                continue
            s = St({}, st0.facts).assume(*fx, le(ZERO_I, w), lt(w, N))
            with set_facts(s.facts):
                got = o.tx(z).at(add(mul(qq, o.F), o.cp, w))
                want = D.dft_at(o.spectrum(z, qq), N, w, num(1, "R"))
                want = C(*[mul(x, inv(N)) for x in want.xs])
            cx.equal("round trip: what the receiver keeps of a frame is 1/N times the inverse transform of its carriers%s%s" % (lab, sfx), "lemma", s.facts, got, want, "lemma")
            s = St({}, st0.facts).assume(*fx, le(ZERO_I, t), lt(t, o.M))
            k = add(mul(qq, o.M), t)
            with set_facts(s.facts):
                got = o.spectrum(z, qq).at(rot(o.carrier(t), o.h, N))
                want = z.at(k)
                if fin and qq is Q:
                    c = lt(t, r)
                    want = C(*[ite(c, x, num(0, "R")) for x in want.xs])
            cx.equal("round trip: the carrier read for symbol t holds symbol t, or zero after the last%s%s" % (lab, sfx), "lemma", s.facts, got, want, "lemma")
    for sfx, fin in ((" (finite)", True), (" (endless)", False)):
        cx.guard("round trip" + sfx, lambda: trip(sfx, fin))

    def empty():
        ex, st = base(cx, facts)
        for fn in ("ofdm::tx_baseband_ofdm_signal", "ofdm::rx_baseband_ofdm_signal"):
            for s, v in cx.call(ex, fn, [It(symcx("z", ZERO_I)), N, p], st, "nothing from nothing"):
                with set_facts(s.facts):
                    cx.obl("nothing from nothing", fn, "post", s.facts, eq(v.rest().len, ZERO_I))
    cx.guard("empty", empty)
