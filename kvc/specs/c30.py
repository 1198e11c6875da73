"""Prefix stability: the output for a message of a whole units is compared, index by index, with the output for the endless
message that starts with it.  Both outputs of a shorter and of a longer message are then prefixes of the same endless
output, and their lengths are ordered like those of the messages."""
from .common import *
from .c19 import Ofdm
from .. import std as S

SEED = num(64)


def one_run(outs, what):
    if len(outs) != 1:
        raise Unsupported("%s: %d outcomes" % (what, len(outs)))
    s, v = outs[0]
    with set_facts(s.facts):
        return s, v.rest()


def prefix(cx, fn, s, short, whole, unit=None, extra=()):
    """short is a prefix of whole; unit: compare at unit*q + p for p = 0 .. unit-1"""
    if whole.len is not None:
        cx.obl("%s: an endless message gives an endless output" % fn, fn, "post", s.facts, FALSE)
        return
    i, q = var("i"), var("q")
    for p in ([None] if unit is None else range(unit)):
        k = i if p is None else add(mul(num(unit), q), num(p))
        s2 = St({}, s.facts).assume(le(ZERO_I, i if p is None else q))
        with set_facts(s2.facts):
            s2 = s2.assume(lt(k, short.len))
        with set_facts(s2.facts):
            g, w = short.at(k), whole.at(k)
        cx.equal("%s: the output of a whole number of units is a prefix of the endless output%s" % (fn, "" if p is None else " (%d mod %d)" % (p, unit)),
                 fn, s2.facts, g, w)


def grows(cx, fn, facts, n, a):
    """the length n, a term in a, does not shrink as a grows"""
    b = var("b")
    fx = St({}, facts).assume(le(a, b)).facts
    with set_facts(fx):
        cx.obl("%s: a longer message gives no shorter output" % fn, fn, "post", fx, le(n, rebuild_subst(n, a, b)))


def rebuild_subst(t, a, b):
    return subst(t, {a: b})


def prove(cx):
    adaptors(cx, "inflate", "chunks", "wchunks", "integrate_and_dump", "integrate", "take_every", "nonvolve", "HopTable", "LogisticMap", "Chebyshev")
    # both outputs come from the same code: the sign bit of a zero statistic is that of the same floating-point expression
    S._zs[0] = None
    cx.assumed.add("the sign bit of a zero statistic is the same whenever the same code computes it from the same samples")
    a = var("a")
    K, R, fs, _ = rate_vars()
    f, fc, low, high, N, nf = var("f", "R"), var("fc", "R"), var("low", "R"), var("high", "R"), var("N"), var("nf")
    src = {"B": symseq, "R": symseq}

    def stream(n, sort):
        return symcx("m", n) if sort == "C" else symseq("m", n, sort)

    def causal(fn, args, sort, unit, facts, table=None, step=None, units=None):
        """args: function of the input iterator"""
        res = []
        seens = []
        n = mul(unit, a) if units is None else units
        st0 = St({}, ()).assume(le(ZERO_I, a), *facts)
        for ln in (n, None):
            seen = {}
            if table is None:
                ex = cx.exec(A.CONTRACTS)
            else:
                ex = cx.exec(opaque_stages(seen, table))
            st = St({}, st0.facts)
            if table is not None and ln is not None:
                st.assume(*[le(ZERO_I, var("n" + x[0])) for x in table.values() if x[2] is None])
            with set_facts(st.facts):
                m = stream(ln, sort)
            res.append(one_run(cx.call(ex, fn, args(It(m)), st, "%s (%s)" % (fn, "finite" if ln is not None else "endless"), contract="prefix-stable"), fn))
            seens.append(seen)
        (s, v), (s1, w) = res
        s2 = St({}, s.facts).assume(*s1.facts)
        prefix(cx, fn, s2, v, w, step)
        if table is None:
            grows(cx, fn, s2.facts, v.len, a)
            return
        # composed of other streams: each stage gets a prefix of what it gets for the endless message, and the same settings
        for g, (x, y) in ((g, (seens[0].get(g, []), seens[1].get(g, []))) for g in table):
            cx.obl("%s: %s is used once" % (fn, g), fn, "post", [], B(len(x) == 1 and len(y) == 1))
            if len(x) != 1 or len(y) != 1:
                continue
            sa, ia, ra, _ = x[0]
            sb, ib, rb, _ = y[0]
            sx = St({}, sa.facts).assume(*sb.facts)
            prefix(cx, "%s: input of %s" % (fn, g), sx, ia, ib)
            for k, (u, v2) in enumerate(zip(ra, rb)):
                cx.equal("%s: %s gets the same settings (%d)" % (fn, g, k), fn, sx.facts, u, v2)

    def go(*x, **k):
        cx.guard(x[0], lambda: causal(*x, **k))

    two = num(2)
    rates = rate_facts(K, R)
    carried = rate_facts(K, R, f)
    go("bpsk::tx_baseband_bpsk_signal", lambda m: [m], "B", ONE_I, [])
    go("qpsk::tx_baseband_qpsk_signal", lambda m: [m], "B", two, [])
    go("bpsk::rx_baseband_bpsk_signal", lambda m: [m], "C", ONE_I, [])
    go("qpsk::rx_baseband_qpsk_signal", lambda m: [m], "C", ONE_I, [])
    go("bpsk::tx_bpsk_signal", lambda m: [m, fs, R, f], "B", ONE_I, carried)
    go("qpsk::tx_qpsk_signal", lambda m: [m, fs, R, f], "B", two, carried)
    go("bpsk::rx_bpsk_signal", lambda m: [m, fs, R, f], "R", K, carried)
    go("qpsk::rx_qpsk_signal", lambda m: [m, fs, R, f], "R", K, carried)
    # CDMA: L chips of c samples per symbol
    L, c = var("L"), var("c")
    Kc = mul(L, c)
    fc_ = mul(Kc, R)
    chips = [le(ONE_I, L), le(two, c), le(ONE_I, R), le(mul(num(2, "R"), f), toreal(fc_))]

    def key():
        with set_facts(St({}, ()).assume(*chips).facts):
            return PRef(symseq("key", L, "B"))
    go("cdma::tx_baseband_cdma", lambda m: [m, key()], "B", ONE_I, [le(ONE_I, L)])
    go("cdma::rx_baseband_cdma", lambda m: [m, key()], "B", L, [le(ONE_I, L)])
    for x, u in (("bpsk", ONE_I), ("qpsk", two)):
        go("cdma::tx_cdma_%s_signal" % x, lambda m: [m, fc_, R, f, key()], "B", u, chips)
        go("cdma::rx_cdma_%s_signal" % x, lambda m: [m, fc_, R, f, key()], "R", Kc, chips)
    go("cdma::tx_coded_cdma_bpsk_signal", lambda m: [m, fc_, R, f, key()], "B", num(56), chips, table={"bch::bch_stream_encode": ("e", "B", None)})
    go("cdma::rx_coded_cdma_bpsk_signal", lambda m: [m, fc_, R, f, key()], "R", mul(num(96), Kc), chips, table={"bch::bch_stream_decode": ("e", "B", None)})
    # hopping
    band_ = rates + [le(ONE_I, N), le(low, high), le(mul(num(2, "R"), high), toreal(fs))]
    go("fh::tx_fh_bpsk_signal", lambda m: [m, low, high, N, fs, R], "B", ONE_I, band_)
    go("fh::rx_fh_bpsk_signal", lambda m: [m, low, high, N, fs, R], "R", K, band_)
    go("fh::tx_fh_bpsk_signal_old", lambda m: [m, low, high, N, fs, R, fc], "B", ONE_I, band_ + [le(mul(num(2, "R"), fc), toreal(fs))])
    go("fh_css::tx_fh_css_signal", lambda m: [m, fs, R, low, high, N], "B", ONE_I, band_)
    # FSK, FM
    tones = rates + [le(mul(num(2, "R"), high), toreal(fs))]
    go("fsk::tx_bfsk_signal", lambda m: [m, fs, R, low, high], "B", ONE_I, tones)
    go("fsk::tx_mfsk_signal", lambda m: [m, fs, R, low, high, nf], "B", ONE_I, tones)
    for xs in ((high, low), (high, low, var("other", "R"))):
        go("fsk::tx_fsk_signal", lambda m: [m, fs, R, PRef(lit(xs))], "B", ONE_I, tones)
    go("fm::tx_fsk", lambda m: [m, fs, R, fc], "B", ONE_I, rates)
    go("fm::tx_fm", lambda m: [m, fs, R, fc], "R", ONE_I, rates)
    go("fm::rx_fsk", lambda m: [m, fs, R, fc], "R", K, rates)
    # chaos keying
    go("csk::tx_baseband_csk", lambda m: [m], "B", ONE_I, [])
    go("csk::rx_baseband_csk", lambda m: [m], "R", ONE_I, [])
    go("dcsk::tx_baseband_dcsk", lambda m: [m], "B", ONE_I, [])
    go("dcsk::rx_baseband_dcsk", lambda m: [m], "R", two, [])

    # OFDM
    h, p, n, r, Q, j, q = var("h"), var("p"), var("n"), var("r"), var("Q"), var("j"), var("q")
    SC = mul(two, h)
    o0 = St({}, ()).assume(le(ONE_I, p), le(p, sub(SC, two)), le(two, h))
    with set_facts(o0.facts):
        o = Ofdm(SC, p)

    def ofdm(fn, tx):
        size, out = (o.M, o.F) if tx else (o.F, o.M)
        res = []
        for ln in (add(mul(Q, size), size), None):
            st = St({}, o0.facts)
            if ln is not None:
                st.assume(le(ZERO_I, Q))
            z = cplx(st, ln, "z")
            res.append(one_run(cx.call(cx.exec(A.CONTRACTS), fn, [It(z), SC, p], st, fn, contract="prefix-stable"), fn))
        (s, v), (s1, w) = res
        s2 = St({}, s.facts).assume(*s1.facts)
        if w.len is not None:
            cx.obl("%s: an endless message gives an endless output" % fn, fn, "post", s2.facts, FALSE)
            return
        cx.obl("%s: Q+1 whole frames give Q+1 whole frames" % fn, fn, "post", s2.facts, eq(v.len, add(mul(Q, out), out)))
        parts_ = [("prefix", [le(ZERO_I, j), lt(j, o.cp)]), ("body", [le(o.cp, j), lt(j, o.F)])] if tx else [("symbols", [le(ZERO_I, j), lt(j, o.M)])]
        for lab, qq, fx in (("frame q", q, [le(ZERO_I, q), lt(q, Q)]), ("last frame", Q, [])):
            for part, fj in parts_:
                s3 = St({}, s2.facts).assume(*fx, *fj)
                k = add(mul(qq, out), j)
                with set_facts(s3.facts):
                    g, x = v.at(k), w.at(k)
                cx.equal("%s: the output of whole frames is a prefix of the endless output (%s, %s)" % (fn, part, lab), fn, s3.facts, g, x)
    for fn, tx in (("ofdm::tx_baseband_ofdm_signal", True), ("ofdm::rx_baseband_ofdm_signal", False)):
        cx.guard(fn, lambda: ofdm(fn, tx))
    tx0, rx0 = "ofdm::tx_baseband_ofdm_signal", "ofdm::rx_baseband_ofdm_signal"
    q0, q1 = "qpsk::tx_baseband_qpsk_signal", "qpsk::rx_baseband_qpsk_signal"
    M, pp = var("M"), var("pp")
    go("ofdm::tx_ofdm_qpsk_signal", lambda m: [m, M, pp, fs, R, fc], "B", two, rates,
       table={q0: ("sym", "C", lambda n: idiv(n, two)), tx0: ("z", "C", None)})
    # FH-OFDM-DCSK: 7 bits and 10 samples per frame
    d0, d1 = "fh_ofdm_dcsk::tx_baseband_fh_ofdm_dcsk_signal", "fh_ofdm_dcsk::rx_baseband_fh_ofdm_dcsk_signal"
    go(d0, lambda m: [m], "B", num(7), [], step=10, units=add(mul(num(7), a), num(7)))
    go(d1, lambda m: [m], "C", num(10), [], step=7)
    with set_facts(St({}, ()).assume(*rates).facts):
        half = idiv(fs, two)
        tops = rates + [le(ONE_I, nf), le(f2u(high), half), le(f2u(fc), half)]
    go("fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal", lambda m: [m, low, high, nf, fs, R], "B", num(7), tops, table={d0: ("z", "C", None)})
    go("fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal_2", lambda m: [m, fs, R, fc], "B", num(7), tops, table={d0: ("z", "C", None)})
