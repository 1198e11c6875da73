from .common import *


def pack(m):
    """byte k holds bits 8k .. 8k+7, bit i in position i, absent bits zero"""
    n = m.len
    nb = None if n is None else A.cdiv(n, num(8))

    def gen(k):
        bs = []
        for i in range(8):
            p = add(mul(num(8), k), num(i))
            if n is None or entails(lt(p, n)):
                bs.append(m.at(p))
            else:
                with with_facts([lt(p, n)]):
                    b = m.at(p)
                bs.append(band(lt(p, n), b))
        return Byte(bs)
    return Seq(nb, gen=gen)


def unpack(y):
    n = None if y.len is None else mul(num(8), y.len)

    def gen(i):
        b = y.at(idiv(i, num(8)))
        r = imod(i, num(8))
        out = b.bits[7]
        for k in range(6, -1, -1):
            out = ite(eq(r, num(k)), b.bits[k], out)
        return out
    return Seq(n, gen=gen)


def symbytes(st, name, n):
    return Seq(n, gen=lambda i: Byte([app("%s.%d" % (name, k), (i,), "B") for k in range(8)]))


def prove(cx):
    adaptors(cx, "chunks")

    def one():
        ex, st = base(cx)
        bs = [var("b%d" % i, "B") for i in range(8)]
        for k in range(9):
            with set_facts(()):
                want = Byte(bs[:k] + [FALSE] * (8 - k))
            post(cx, ex, "bool_to_u8", [PRef(lit(bs[:k]))], st, want, "a byte from %d bits" % k)
        post(cx, ex, "u8_to_bools", [Byte(bs)], st, lit(bs), "the bits of a byte")
    cx.guard("single bytes", one)

    def go(sfx, n):
        ex, st = base(cx, lf(n))
        m = bits(st, n)
        post(cx, ex, "bools_to_u8s", [It(m)], st, lambda: pack(m), "packing" + sfx)
        with set_facts(st.facts):
            y = symbytes(st, "y", n)
        post(cx, ex, "u8s_to_bools", [It(y)], st, lambda: unpack(y), "unpacking" + sfx)
        # unpack(pack(m)) = m followed by fewer than eight zero bits
        for s, v in cx.call(ex, "bools_to_u8s", [It(m)], st, "packing round trip" + sfx):
            for s2, w in cx.call(ex, "u8s_to_bools", [v], s, "packing round trip" + sfx):
                with set_facts(s2.facts):
                    w = w.rest()
                i = var("i")
                if n is not None:
                    cx.obl("packing round trip: fewer than eight bits more" + sfx, "u8s_to_bools", "lemma", s2.facts,
                           band(le(n, w.len), lt(w.len, add(n, num(8)))))
                fx = St({}, s2.facts).assume(le(ZERO_I, i), *([lt(i, n)] if n is not None else []))
                with set_facts(fx.facts):
                    cx.obl("packing round trip: bit i comes back" + sfx, "u8s_to_bools", "lemma", fx.facts, iff(w.at(i), m.at(i)))
                if n is not None:
                    fx = St({}, s2.facts).assume(le(n, i), lt(i, w.len))
                    with set_facts(fx.facts):
                        cx.obl("packing round trip: the rest is zero" + sfx, "u8s_to_bools", "lemma", fx.facts, bnot(w.at(i)))
    for sfx, n in ((" (finite)", var("n")), (" (endless)", None)):
        cx.guard("bit packing" + sfx, lambda: go(sfx, n))
