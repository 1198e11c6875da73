"""Over the contracts of bools_to_u8s (pack), u8_to_bools (its body) and of the Reed-Solomon crate (kvc/dep.py).

Frames: data bytes 7F + r (1 <= r <= 7: the last frame is frame F) or endless; received bytes 12F + r (6 <= r <= 12)."""
from .common import *
from .c05 import pack, unpack, symbytes
from .. import dep as D

S7, S8, S12, ECC = num(7), num(8), num(12), num(5)


def block(y, k, q, r):
    """block q of y: r bytes from k*q on"""
    return Seq(r, gen=lambda w: y.at(add(mul(q, num(k)), w)))


def enc_byte(y, q, L, p):
    """byte p of coded frame q"""
    return D.rs_encoded(block(y, 7, q, L), ECC).at(p)


def dec_byte(z, q, L, p):
    """byte p of decoded frame q: corrected if possible, as received otherwise"""
    b = z if q is None else block(z, 12, q, L)
    ok = D.rs_ok(b, ECC)
    return Byte([bor(band(ok, u), band(bnot(ok), v)) for u, v in zip(D.rs_decoded(b, ECC).at(p).bits, D.byte_bits(b.at(p)))])


def same_bits(a, b):
    return band(*[iff(x, y) for x, y in zip(a, b)])


def prove(cx):
    adaptors(cx, "chunks")
    n, F, r, q = var("n"), var("F"), var("r"), var("q")

    def with_bytes(y):
        """an executor in which bools_to_u8s returns the bytes y (its contract: y = pack(input), proved under C05)"""
        c = dict(A.CONTRACTS)
        c["bools_to_u8s"] = lambda ex, a, st: It(y)
        ex = cx.exec(c)
        return ex

    def cover():
        i = var("i")
        for per in (7, 12):
            f = idiv(sub(n, ONE_I), num(per))
            cx.obl("every positive number of bytes is %dF + r with 1 <= r <= %d" % (per, per), "bch", "lemma", [le(ONE_I, n)],
                   band(le(ZERO_I, f), le(ONE_I, sub(n, mul(num(per), f))), le(sub(n, mul(num(per), f)), num(per))))
            w = num(8 * per)
            qq, rr = idiv(i, w), imod(i, w)
            cx.obl("every bit index is 8(%dq + p) + c" % per, "bch", "lemma", [le(ZERO_I, i)],
                   band(eq(i, add(mul(w, qq), mul(S8, idiv(rr, S8)), imod(rr, S8))), le(ZERO_I, idiv(rr, S8)), lt(idiv(rr, S8), num(per))))
    cx.guard("indices", cover)

    def stream(fn, name, per, out, byte, nb, sizes):
        """fn turns the bytes y (nb of them) into frames of `out` bytes made from blocks of `per` bytes"""
        facts = [le(ZERO_I, F)]
        y = symbytes(None, name, nb)
        for k in sizes:
            fx = facts if k is None else facts + [eq(r, num(k))]
            yy = y if k is None or nb is None else symbytes(None, name, add(mul(num(per), F), num(k)))
            ex = with_bytes(yy)
            st = St({}, ()).assume(*facts)
            what = "endless" if nb is None else "last block of %d" % k
            for s, v in cx.call(ex, fn, [It(symseq("m", var("n"), "B"))], st, "%s (%s)" % (fn, what), contract="the coded stream, frame by frame"):
                with set_facts(s.facts):
                    v = v.rest()
                d = out - per
                full = out
                if nb is not None:
                    total = mul(S8, add(mul(num(full), F), num(k + d)))
                    cx.obl("%s: length (%s)" % (fn, what), fn, "post", s.facts, eq(v.len, total))
                elif v.len is not None:
                    raise Unsupported("finite")
                # full frames q, then the last one
                cases = [(q, per, [le(ZERO_I, q)] + ([lt(q, F)] if nb is not None else []), "frame q")]
                if nb is not None:
                    cases.append((F, k, [], "last frame"))
                    if k != sizes[0]:
                        cases = cases[1:]
                for qq, L, extra, lab in cases:
                    s2 = St({}, s.facts).assume(*extra)
                    for p in range(L + d):
                        with set_facts(s2.facts):
                            w = byte(yy, qq, num(L), num(p))
                            g = []
                            for c in range(8):
                                i = add(mul(num(8 * out), qq), num(8 * p + c))
                                g.append(v.at(i))
                            goal = same_bits(g, w.bits)
                        cx.obl("%s: byte %d of %s (%s)" % (fn, p, lab, what), fn, "post", s2.facts, goal)

    cx.guard("coding (endless)", lambda: stream("bch::bch_stream_encode", "y", 7, 12, enc_byte, None, [None]))
    cx.guard("coding (finite)", lambda: stream("bch::bch_stream_encode", "y", 7, 12, enc_byte, n, range(1, 8)))
    cx.guard("decoding (endless)", lambda: stream("bch::bch_stream_decode", "z", 12, 7, dec_byte, None, [None]))
    cx.guard("decoding (finite)", lambda: stream("bch::bch_stream_decode", "z", 12, 7, dec_byte, n, range(6, 13)))

    # up to two corrupted bytes e1(q), e2(q) in every frame
    def corrected(qq, L, lab, facts):
        y = symbytes(None, "y", None)
        e1, e2 = app("e1", (qq,), "I"), app("e2", (qq,), "I")
        with set_facts(facts):
            def rx(p):
                hit = bor(eq(p, e1), eq(p, e2))
                return Byte([bor(band(hit, app("err%d" % b, (qq, p), "B")), band(bnot(hit), x)) for b, x in enumerate(enc_byte(y, qq, num(L), p).bits)])
            got = [rx(num(p)) for p in range(L + 5)]
            blk = lit(got)
            ok, dec = D.rs_ok(blk, ECC), D.rs_decoded(blk, ECC)
            data = [y.at(add(mul(qq, S7), num(p))) for p in range(L)]
            assumed = [ok] + [same_bits(dec.at(num(p)).bits, data[p].bits) for p in range(L)]
        cx.assumed.add("reed_solomon::Decoder::correct: a block that differs from Encoder::encode(d) in at most 2 of its bytes (5 parity bytes) is corrected to d")
        for p in range(L + 5):
            cx.obl("%s: byte %d is received as sent unless it is one of the two corrupted" % (lab, p), "lemma", "lemma",
                   list(facts) + [bnot(eq(num(p), e1)), bnot(eq(num(p), e2))], same_bits(got[p].bits, enc_byte(y, qq, num(L), num(p)).bits))
        f2 = St({}, facts).assume(*assumed).facts
        for p in range(L):
            with set_facts(f2):
                w = dec_byte(blk, None, None, num(p))
            cx.obl("%s: data byte %d comes back" % (lab, p), "lemma", "lemma", f2, same_bits(w.bits, data[p].bits))
    cx.guard("round trip", lambda: corrected(q, 7, "two corrupted bytes in frame q", [le(ZERO_I, q)]))
    for k in range(1, 7):
        cx.guard("round trip, last frame of %d" % k, lambda: corrected(F, k, "two corrupted bytes in a last frame of %d data bytes" % k, [le(ZERO_I, F)]))

    # the byte layer: unpacking and packing again returns the bytes
    def bytes_back():
        z = symbytes(None, "z", n)
        with set_facts([le(ZERO_I, n)]):
            w = pack(unpack(z))
            cx.obl("packing the unpacked bytes: length", "lemma", "lemma", [le(ZERO_I, n)], eq(w.len, n))
        k = var("k")
        fx = St({}, ()).assume(le(ZERO_I, k), lt(k, n)).facts
        with set_facts(fx):
            cx.obl("packing the unpacked bytes returns them", "lemma", "lemma", fx, same_bits(w.at(k).bits, z.at(k).bits))
    cx.guard("bytes", bytes_back)
