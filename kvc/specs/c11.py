from .common import *


def prove(cx):
    adaptors(cx, "inflate", "integrate_and_dump")
    L, c, R, f = var("L"), var("c"), var("R"), var("f", "R")
    K = mul(L, c)
    fs = mul(K, R)
    facts = [le(ONE_I, L), le(num(2), c), le(ONE_I, R), le(mul(num(2, "R"), f), toreal(fs))]

    def spread(w, key):
        return Seq(w.len, gen=lambda i: mul(w.at(i), sgn(key.at(idiv(imod(i, K), c)))))

    def decide_spread(y):
        return lambda: bpsk_decide(spread(y, symseq("key", L, "B")), K, fs, f)

    def used(cx, fn, seen, which, want, label):
        got = seen.get(which, [])
        cx.obl(label + ": coded once", fn, "post", [], B(len(got) == 1))
        for st, s in got:
            with set_facts(st.facts):
                w = want() if callable(want) else want
            cx.equal_seq(label, fn, st, s, w)

    def go(sfx, n):
        ex, st = base(cx, lf(n) + facts)
        m = bits(st, n)
        y = reals(st, n)
        with set_facts(st.facts):
            key = symseq("key", L, "B")
        for nm, wave, decide in (("bpsk", bpsk_wave, bpsk_decide), ("qpsk", qpsk_wave, qpsk_decide)):
            post(cx, ex, "cdma::tx_cdma_%s_signal" % nm, [It(m), fs, R, f, PRef(key)], st,
                 lambda: spread(wave(m, K, fs, f), key), "the plain %s signal times the chip sequence%s" % (nm.upper(), sfx))
            post(cx, ex, "cdma::rx_cdma_%s_signal" % nm, [It(y), fs, R, f, PRef(key)], st,
                 lambda: decide(spread(y, key), K, fs, f), "plain %s decisions of the despread signal%s" % (nm.upper(), sfx))
            w = spread(wave(m, K, fs, f), key)
            for s, v in cx.call(ex, "cdma::rx_cdma_%s_signal" % nm, [It(w), fs, R, f, PRef(key)], st, "%s own signal%s" % (nm, sfx)):
                with set_facts(s.facts):
                    want = decide(wave(m, K, fs, f), K, fs, f)
                cx.equal_seq("an own %s signal is decided as the unspread one%s" % (nm.upper(), sfx), "cdma::rx_cdma_%s_signal" % nm, s, v, want)
        # the coded variants: the stream code (C06) before and after
        seen = {}
        ex = cx.exec(bch_contracts(seen))
        nc = None if n is None else var("nenccoded")
        if nc is not None:
            st = st.clone().assume(le(ZERO_I, nc), le(ZERO_I, var("ndeccoded")))
        fn = "cdma::tx_coded_cdma_bpsk_signal"
        post(cx, ex, fn, [It(m), fs, R, f, PRef(key)], st,
             lambda: spread(bpsk_wave(symseq("codedenc", nc, "B"), K, fs, f), key), "CDMA/BPSK of the coded message" + sfx)
        used(cx, fn, seen, "enc", m, "the coded stream is that of the message" + sfx)
        fn = "cdma::rx_coded_cdma_bpsk_signal"
        post(cx, ex, fn, [It(y), fs, R, f, PRef(key)], st,
             lambda: symseq("codeddec", None if n is None else var("ndeccoded"), "B"), "the decoded stream" + sfx)
        used(cx, fn, seen, "dec", decide_spread(y), "the decoded stream is that of the CDMA/BPSK decisions" + sfx)
    for sfx, n in ((" (finite)", var("n")), (" (endless)", None)):
        cx.guard("passband CDMA" + sfx, lambda: go(sfx, n))
