from .common import *


def xor(a, b):
    return bnot(iff(a, b))


def one(b):
    return ite(b, ONE_I, ZERO_I)


def prove(cx):
    adaptors(cx, "inflate", "chunks")
    L = var("L")

    def go(sfx, n):
        ex, st = base(cx, lf(n) + [le(ONE_I, L)])
        m = bits(st, n)
        with set_facts(st.facts):
            key = symseq("key", L, "B")
        nl = None if n is None else mul(n, L)
        post(cx, ex, "cdma::tx_baseband_cdma", [It(m), PRef(key)], st,
             lambda: Seq(nl, gen=lambda i: xor(m.at(idiv(i, L)), key.at(imod(i, L)))), "chip j of a bit is the bit XOR key[j]" + sfx)
        y = bits(st, n, "y")

        def want():
            nb = None if n is None else A.cdiv(n, L)

            def gen(k):
                w = L if n is None else mini(L, sub(n, mul(k, L)))
                return lt(L, mul(num(2), Sum(w, lambda j: one(xor(y.at(add(mul(k, L), j)), key.at(j))))))
            return Seq(nb, gen=gen)
        post(cx, ex, "cdma::rx_baseband_cdma", [It(y), PRef(key)], st, want, "a block decides 1 when more than half of the chips differ from the key" + sfx)
        # tolerance: fewer than half of the chips of bit k flipped
        with set_facts(st.facts):
            z = Seq(nl, gen=lambda i: xor(xor(m.at(idiv(i, L)), key.at(imod(i, L))), app("e", (i,), "B")))
        for s, v in cx.call(ex, "cdma::rx_baseband_cdma", [It(z), PRef(key)], st, "CDMA recovery" + sfx):
            k = var("k")
            if n is not None:
                with set_facts(s.facts):
                    cx.obl("CDMA recovery: as many bits" + sfx, "cdma::rx_baseband_cdma", "lemma", s.facts, eq(v.rest().len, n))
            fx = St({}, s.facts).assume(le(ZERO_I, k), *([lt(k, n)] if n is not None else []))
            with set_facts(fx.facts):
                errs = Sum(L, lambda j: one(app("e", (add(mul(k, L), j),), "B")))
                fx.assume(lt(mul(num(2), errs), L))
            with set_facts(fx.facts):
                cx.obl("CDMA recovery: bit k survives fewer than L/2 chip errors" + sfx, "cdma::rx_baseband_cdma", "lemma", fx.facts,
                       iff(v.rest().at(k), m.at(k)))
    for sfx, n in ((" (finite)", var("n")), (" (endless)", None)):
        cx.guard("CDMA" + sfx, lambda: go(sfx, n))
