from .common import *
from .. import dep as D

FN = "bpf::bandpass"


def prove(cx):
    adaptors(cx, "chunks")
    h, fs, q, j = var("h"), var("fs"), var("q"), var("j")
    N = mul(num(2), h)
    low, high = var("low", "R"), var("high", "R")

    def masked(x, k):
        """bin k of the block x, zero outside [low, high]"""
        f = mul(toreal(mul(k, fs)), inv(toreal(N)))
        X = D.rdft_at(x, N, k)
        out = bor(lt(f, low), lt(high, f))
        return C(*[ite(out, num(0, "R"), v) for v in X.xs])

    def run(sfx, nb, whole):
        facts = [le(ONE_I, h), le(ONE_I, fs)] + ([le(ZERO_I, nb)] if nb is not None else [])
        if whole:
            facts += [le(low, num(0, "R")), le(mul(num(Fraction(1, 2), "R"), toreal(fs)), high)]
        ex, st = base(cx, facts)
        y = reals(st, None if nb is None else mul(nb, N))
        for s, v in cx.call(ex, FN, [low, high, It(y), fs, N], st, "blocks" + sfx, contract="each block is the scaled inverse real DFT of its masked real DFT"):
            with set_facts(s.facts):
                v = v.rest()
            if nb is not None:
                cx.obl("one output per input" + sfx, FN, "post", s.facts, eq(v.len, y.len))
            s2 = St({}, s.facts).assume(le(ZERO_I, q), le(ZERO_I, j), lt(j, N), *([lt(q, nb)] if nb is not None else []))
            with set_facts(s2.facts):
                x = Seq(N, gen=lambda w: y.at(add(mul(q, N), w)))
                X = Seq(add(h, ONE_I), gen=(lambda k: D.rdft_at(x, N, k)) if whole else (lambda k: masked(x, k)))
                g, w = v.at(add(mul(q, N), j)), mul(D.irdft_at(X, N, j), inv(toreal(N)))
            cx.equal("sample j of block q" + sfx, FN, s2.facts, g, w)
    for sfx, nb in ((" (finite)", var("b")), (" (endless)", None)):
        cx.guard("masked" + sfx, lambda: run(sfx, nb, False))
        cx.guard("whole band" + sfx, lambda: run(", band 0..fs/2" + sfx, nb, True))
    # a band covering 0..fs/2 keeps every bin (proved above), so each block is 1/N times the inverse real DFT of its real DFT
    cx.lean("real discrete Fourier inversion: the inverse real N-point transform of the real one of x is N x", "real_dft_inversion", "Fourier.lean")
