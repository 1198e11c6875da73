from .common import *
from .. import prove as P


def prove(cx):
    adaptors(cx, "HopTable", "inflate", "chunks")
    n, fs, R, L, N, low, top = var("n"), var("fs"), var("R"), var("L"), var("N"), var("low", "R"), var("top", "R")
    pos = [le(ZERO_I, n), le(ONE_I, fs), le(ONE_I, R), le(ONE_I, L), le(ONE_I, N)]
    half = idiv(fs, num(2))
    with set_facts(pos):
        not_whole = ("a sample rate that is no multiple of the symbol rate", lambda: lt(ZERO_I, imod(fs, R)))
        too_high = ("a carrier above half the sample rate", lambda: lt(half, f2u(top)))
        chips_many = ("a chip rate above half the sample rate", lambda: lt(half, mul(L, R)))
        chips_frac = ("a chip rate that does not divide the sample rate", lambda: lt(ZERO_I, imod(fs, mul(L, R))))
    # fs = c*L*R below is the general accepted case
    K, c = var("K"), var("c")

    def go():
        ex, st = base(cx, pos + [le(ZERO_I, var("nenccoded"))])
        ex.contracts.update(bch_contracts({}))
        st = st.assume(le(ZERO_I, var("nz")))
        # its own evaluation never fails: C19
        ex.contracts.update(opaque_stages({}, {"ofdm::tx_baseband_ofdm_signal": ("z", "C", None)}))
        m = bits(st, n)
        with set_facts(st.facts):
            key = symseq("key", L, "B")
        two = num(2)
        std = [not_whole, too_high]
        T_ = [("bpsk::tx_bpsk_signal", lambda s, k: [It(m), s, R, top], std),
              ("cdma::tx_cdma_bpsk_signal", lambda s, k: [It(m), s, R, top, PRef(key)], std + [chips_many, chips_frac]),
              ("cdma::tx_cdma_qpsk_signal", lambda s, k: [It(m), s, R, top, PRef(key)], std + [chips_many, chips_frac]),
              ("cdma::tx_coded_cdma_bpsk_signal", lambda s, k: [It(m), s, R, top, PRef(key)], std + [chips_many, chips_frac]),
              ("fh::tx_fh_bpsk_signal", lambda s, k: [It(m), low, top, N, s, R], std),
              ("fh::tx_fh_bpsk_signal_old", lambda s, k: [It(m), low, var("h", "R"), N, s, R, top], std),
              ("fsk::tx_bfsk_signal", lambda s, k: [It(m), s, R, low, top], std),
              ("fsk::tx_mfsk_signal", lambda s, k: [It(m), s, R, low, top, two], std),
              ("fsk::tx_fsk_signal", lambda s, k: [It(m), s, R, PRef(lit([top, low]))], std),
              ("fh_css::tx_fh_css_signal", lambda s, k: [It(m), s, R, low, top, N], std),
              ("ofdm::tx_ofdm_qpsk_signal", lambda s, k: [It(m), var("sub"), var("pil"), s, R, top], [not_whole]),
              ("fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal", lambda s, k: [It(m), low, top, N, s, R], std),
              ("fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal_2", lambda s, k: [It(m), s, R, top], std)]
        for fn, args, bad in T_:
            def one():
                short = fn.split("::")[-1]
                for what, cond in bad:
                    s0 = st.clone()
                    with set_facts(s0.facts):
                        s0.assume(cond())
                    saved = len(ex.panics)
                    npre = len(s0.facts)
                    cx.under[fn] = "rejects exactly the impossible rate and carrier combinations"
                    try:
                        outs = ex.run_fn(cx.fn(fn), args(fs, key), s0)
                    except Unsupported as e:
                        outs, why = None, e          # beyond the entry checks; the failures met so far must cover the case
                    ps = cx.take_panics(ex, saved, fn, record=False)
                    if outs:
                        for s, v in outs:
                            cx.obl("%s rejects %s" % (short, what), fn, "post", s.facts, FALSE)
                    else:
                        with set_facts(s0.facts):
                            g = bor(*[band(p.cond, *[f for f in p.facts if f not in s0.facts]) for p in ps])
                        if outs is None and not P.prove(list(s0.facts), g)[0]:
                            raise why
                        cx.obl("%s rejects %s" % (short, what), fn, "post", s0.facts, g)
                # everything else is accepted: fs = K R (= c L R for spread signals)
                fs2 = mul(c, L, R) if chips_many in bad else mul(K, R)
                s0 = St({}, pos[:1] + pos[2:]).assume(le(ZERO_I, var("nenccoded")), le(ZERO_I, var("nz")), le(ONE_I, K), le(ONE_I, c), le(low, top))
                with set_facts(s0.facts):
                    if too_high in bad:
                        s0.assume(le(f2u(top), idiv(fs2, num(2))))
                    if chips_many in bad:
                        s0.assume(le(mul(L, R), idiv(fs2, num(2))))
                for s, v in cx.call(ex, fn, args(fs2, key), s0, short + " accepts"):
                    i = var("i")
                    with set_facts(s.facts):
                        v = v.rest()
                        ln = v.len
                    s.assume(le(ZERO_I, i), *([lt(i, ln)] if ln is not None else []))
                    saved = len(ex.panics)
                    with set_facts(s.facts):
                        v.at(i)
                    cx.take_panics(ex, saved, short + " evaluates every sample")
                    cx.proved("%s: sample i is evaluated without a failure" % short, fn, "post", "evaluated symbolically")
            cx.guard(fn, one)
    cx.guard("entry", go)
