"""The functions registered with Python, as MIR functions of the crate: each returns the collected output of the Rust function
of the same scheme on the same arguments.  The argument conversion and registration that PyO3 generates are not proved; the
driver (replay/pydrive.py) calls the compiled module."""
from .common import *
from .. import nd as ND

M = "module_with_functions::"
# python function, Rust function, argument kinds, element sort of the result
B_, R_ = "B", "R"
SCHEMES = [
    ("tx_baseband_bpsk", "bpsk::tx_baseband_bpsk_signal", "B", "C"),
    ("tx_bpsk", "bpsk::tx_bpsk_signal", "Bnnx", "R"),
    ("rx_bpsk", "bpsk::rx_bpsk_signal", "Rnnx", "B"),
    ("tx_qpsk", "qpsk::tx_qpsk_signal", "Bnnx", "R"),
    ("rx_qpsk", "qpsk::rx_qpsk_signal", "Rnnx", "B"),
    ("tx_ofdm", "ofdm::tx_ofdm_qpsk_signal", "Bnnnnx", "R"),
    ("rx_ofdm", "ofdm::rx_ofdm_qpsk_signal", "Rnnnnx", "B"),
    ("tx_bfsk", "fsk::tx_bfsk_signal", "Bnnxx", "R"),
    ("tx_fh_css", "fh_css::tx_fh_css_signal", "Bnnxxn", "R"),
    ("tx_fh_ofdm_dcsk", "fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal_2", "Bnnx", "R"),
]


def out_seq(sort):
    n = var("nout")
    return symcx("out", n) if sort == "C" else symseq("out", n, sort)


def recorder(calls, sort, key=None):
    def c(ex, a, st):
        with set_facts(st.facts):
            src = A._src(ex, a[0], st)
        calls.append((st, src, a[1:]))
        return It(out_seq(sort))
    return c


def by_value(cx, label, fn, st, xs, ys):
    cx.obl(label + ": number of arguments", fn, "post", st.facts, B(len(xs) == len(ys)))
    for k, (x, y) in enumerate(zip(xs, ys)):
        cx.equal("%s: argument %d" % (label, k + 2), fn, st.facts, x, y)


def prove(cx):
    n = var("n")

    def wrapper(py, fn, kinds, sort):
        calls = []
        c = dict(A.CONTRACTS)
        c[fn] = recorder(calls, sort)
        cx.fn(fn)
        ex = cx.exec(c)
        st = St({}, ()).assume(le(ZERO_I, n), le(ZERO_I, var("nout")))
        x = bits(st, n) if kinds[0] == "B" else reals(st, n)
        args = [var("a%d" % k, "R" if t == "x" else "I") for k, t in enumerate(kinds) if k]
        st = st.assume(*[le(ZERO_I, v) for v in args if v.sort == "I"])
        for s, v in cx.call(ex, M + py, [x] + args, st, py, contract="the output of %s on the same arguments, collected" % fn):
            if len(calls) != 1:
                raise Unsupported("%s makes %d calls of %s" % (py, len(calls), fn))
            s0, src, rest = calls[0]
            cx.equal_seq(py + ": the message or signal", M + py, s0, src, x)
            by_value(cx, py, M + py, s0, rest, args)
            cx.equal_seq(py + ": the collected output", M + py, s, v, out_seq(sort))

    for row in SCHEMES:
        cx.guard(row[0], lambda row=row: wrapper(*row))

    def cdma():
        """the key is code 0 of the 16 chip matrix"""
        calls, news, keys = [], [], []
        code = symseq("code", num(16), "B")

        def new(ex, a, st):
            news.append((st, a))
            return Struct("HadamardMatrix", (Opq("walsh", (a[0],)),))

        def key(ex, a, st):
            from .. import std as S
            keys.append((st, S.strip(ex, a[0], st), a[1]))
            return PRef(code)
        c = dict(A.CONTRACTS)
        newfn, keyfn = cx.method(None, "HadamardMatrix", "new"), cx.method(None, "HadamardMatrix", "key")
        c["HadamardMatrix::new"] = c["hadamard::HadamardMatrix::new"] = c[newfn.name] = new
        c["HadamardMatrix::key"] = c["hadamard::HadamardMatrix::key"] = c[keyfn.name] = key
        c["cdma::tx_cdma_bpsk_signal"] = recorder(calls, "R")
        ex = cx.exec(c)
        st = St({}, ()).assume(le(ZERO_I, n), le(ZERO_I, var("nout")))
        x = bits(st, n)
        args = [var("a1"), var("a2"), var("a3", "R")]
        fn = M + "tx_cdma_bpsk"
        for s, v in cx.call(ex, fn, [x] + args, st, "tx_cdma_bpsk", contract="the output of cdma::tx_cdma_bpsk_signal with code 0 of the 16 chip matrix, collected"):
            if (len(calls), len(news), len(keys)) != (1, 1, 1):
                raise Unsupported("calls %d %d %d" % (len(calls), len(news), len(keys)))
            s0, src, rest = calls[0]
            cx.equal_seq("tx_cdma_bpsk: the message", fn, s0, src, x)
            by_value(cx, "tx_cdma_bpsk", fn, s0, rest[:3], args)
            from .. import std as S
            with set_facts(s0.facts):
                k = S.strip(ex, rest[3], s0)
            cx.equal_seq("tx_cdma_bpsk: the key", fn, s0, k, code)
            cx.equal("tx_cdma_bpsk: code 0", fn, keys[0][0].facts, keys[0][2], ZERO_I)
            cx.equal("tx_cdma_bpsk: 16 chips", fn, news[0][0].facts, news[0][1][0], num(16))
            cx.equal("tx_cdma_bpsk: of that matrix", fn, keys[0][0].facts, keys[0][1].xs[0].xs[0], num(16))
            cx.equal_seq("tx_cdma_bpsk: the collected output", fn, s, v, out_seq("R"))
    cx.guard("tx_cdma_bpsk", cdma)

    def held(py, base_fn):
        calls = []
        K, Rr = var("K"), var("R")
        c = dict(A.CONTRACTS)
        c[base_fn] = recorder(calls, "R")
        ex = cx.exec(c)
        st = St({}, ()).assume(le(ZERO_I, n), le(ONE_I, K), le(ONE_I, Rr), le(ZERO_I, var("nout")))
        x = bits(st, n)
        fn = M + py
        o = out_seq("R")
        for s, v in cx.call(ex, fn, [x, mul(K, Rr), Rr], st, py, contract="every value of %s held for rate / symbol rate samples" % base_fn):
            if len(calls) != 1:
                raise Unsupported("%s makes %d calls of %s" % (py, len(calls), base_fn))
            s0, src, rest = calls[0]
            cx.equal_seq(py + ": the message", fn, s0, src, x)
            with set_facts(s.facts):
                w = Seq(mul(o.len, K), gen=lambda i: o.at(idiv(i, K)))
            cx.equal_seq(py + ": every baseband value held", fn, s, v, w)
    adaptors(cx, "inflate")
    cx.guard("tx_csk", lambda: held("tx_csk", "csk::tx_baseband_csk"))
    cx.guard("tx_dcsk", lambda: held("tx_dcsk", "dcsk::tx_baseband_dcsk"))

    def chirp():
        calls = []
        c = dict(A.CONTRACTS)

        def lin(ex, a, st):
            calls.append((st, a))
            return It(out_seq("R"))
        c["fh_css::linear_chirp"] = lin
        ex = cx.exec(c)
        st = St({}, ()).assume(le(ZERO_I, var("nout")))
        args = [var("a0", "R"), var("a1"), var("a2", "R"), var("a3", "R")]
        for s, v in cx.call(ex, "chirp", args, st, "chirp", contract="the output of fh_css::linear_chirp on the same arguments, collected"):
            if len(calls) != 1:
                raise Unsupported("chirp makes %d calls" % len(calls))
            by_value(cx, "chirp", "chirp", calls[0][0], calls[0][1], args)
            cx.equal_seq("chirp: the collected output", "chirp", s, v, out_seq("R"))
    cx.guard("chirp", chirp)

    def noise():
        sd = var("sigma", "R")
        ex, st = base(cx, [le(ZERO_I, n), le(num(0, "R"), sd)])
        x = reals(st, n)
        g = lambda i: mul(sd, app("gauss", (ZERO_I, i), "R"))
        post(cx, ex, "awgn_py", [x, sd], st, lambda: Seq(n, gen=lambda i: add(x.at(i), g(i))), "noise: draw i of one generator is added to sample i")
        ex, st = base(cx, [le(ZERO_I, n), le(num(0, "R"), sd)])
        post(cx, ex, "pure_awgn", [n, sd], st, lambda: Seq(n, gen=g), "noise alone: n draws")
    cx.guard("noise", noise)

    def data():
        ex, st = base(cx, [le(ZERO_I, n)])
        for s, v in cx.call(ex, "random_data", [Opq("Python", ()), n], st, "random data", contract="n bits"):
            if not (isinstance(v, Opq) and v.kind == "arr1"):
                raise Unsupported("random_data returns %r" % (v,))
            cx.equal("random data: length", "random_data", s.facts, v.xs[0].len, n)
    cx.guard("random data", data)

    def ssca():
        for which, flag in (("ssca_base", FALSE), ("ssca_mapped", TRUE)):
            calls = []

            def rec(name):
                def c(ex, a, st):
                    calls.append((st, name, a))
                    return ND.arr2(Seq(var("rr"), gen=lambda i: Seq(var("cc"), gen=lambda k: C(app("sxr", (i, k), "R"), app("sxi", (i, k), "R")))), var("cc"))
                return c
            c = dict(A.CONTRACTS)
            for w in ("ssca_base", "ssca_mapped"):
                c[w] = c["ssca::" + w] = rec(w)
            ex = cx.exec(c)
            st = St({}, ()).assume(le(ZERO_I, n), le(ZERO_I, var("rr")), le(ZERO_I, var("cc")))
            x = reals(st, n)
            N, p = var("N"), var("p")
            for s, v in cx.call(ex, "ssca_py", [Opq("Python", ()), x, N, p, flag], st, "ssca", contract="the output of ssca::%s on the same arguments" % which):
                if len(calls) != 1:
                    raise Unsupported("%d calls" % len(calls))
                s0, name, a = calls[0]
                cx.obl("ssca: %s when map_output is %s" % (which, "set" if flag is TRUE else "not set"), "ssca_py", "post", s0.facts, B(name == which))
                cx.equal_seq(which + ": the signal", "ssca_py", s0, a[0], x)
                by_value(cx, which, "ssca_py", s0, a[1:], [N, p])
                i, k = var("i"), var("k")
                with set_facts(s.facts):
                    z = ND.at2(v, i, k) if hasattr(ND, "at2") else v.xs[0].at(i).at(k)
                cx.equal(which + ": the array itself", "ssca_py", s.facts + (le(ZERO_I, i), lt(i, var("rr")), le(ZERO_I, k), lt(k, var("cc"))), z, C(app("sxr", (i, k), "R"), app("sxi", (i, k), "R")))
    cx.guard("ssca", ssca)
