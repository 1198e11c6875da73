from .common import *
from .. import nd as ND
from ..std import log10


def nsq(z):
    a, b = z.xs
    return add(mul(a, a), mul(b, b))


def prove(cx):
    n = var("n")
    ten = num(10, "R")

    def energy():
        ex, st = base(cx, [le(ZERO_I, n)])
        x = reals(st, n)
        E = lambda: Sum(n, lambda w: mul(x.at(w), x.at(w)))
        post(cx, ex, "energy_detector", [x], st, lambda: mul(ten, log10(E())), "10 log10 of the sum of squares")
        s1 = st.clone().assume(le(ONE_I, n))
        t = var("t", "R")
        fn = "willie::energy_detector"
        post(cx, ex, fn, [PRef(x), t], s1, lambda: lt(t, sqrt(mul(E(), inv(toreal(n))))), "presence exactly when the root mean square exceeds the threshold")
    cx.guard("energy", energy)

    r, c = var("r"), var("c")

    def array(shape, given):
        """a symbolic array and the contracts that hand it out"""
        rows, cols = shape
        A2 = ND.arr2(Seq(rows, gen=lambda i: Seq(cols, gen=lambda k: C(app("sxr", (i, k), "R"), app("sxi", (i, k), "R")))), cols)
        calls = []

        def ssca(ex, a, st):
            calls.append((st, a))
            return A2
        return A2, calls, {} if given else {"ssca::ssca_base": ssca, "ssca_base": ssca}

    def peak(fn, given, stat, idx, label):
        """fn returns 10 log10 of the largest stat(array, index) over the indices"""
        shape = (r, c) if given else (num(4096), num(64))
        A2, calls, con = array(shape, given)
        pre = [le(ONE_I, r), le(ONE_I, c)] if given else [le(ZERO_I, n)]
        ex = cx.exec(dict(A.CONTRACTS, **con))
        st = St({}, ()).assume(*pre)
        x = reals(st, n)
        i, k = var("i"), var("k")
        for s, v in cx.call(ex, fn, [A2 if given else x], st, label, contract=label):
            if not given:
                cx.obl(label + ": one strip spectral correlation", fn, "post", s.facts, B(len(calls) == 1))
                for s0, a in calls:
                    cx.equal(label + ": of the signal", fn, s0.facts, a[0], x)
                    cx.obl(label + ": n = 4096", fn, "post", s0.facts, eq(a[1], num(4096)))
                    cx.obl(label + ": np = 64", fn, "post", s0.facts, eq(a[2], num(64)))
            ext = getattr(ex, "extremes", [])
            if len(ext) != 1:
                raise Unsupported("%d extremes" % len(ext))
            m, seq, bound = ext[0]
            with set_facts(s.facts):
                ix, pos, rng = idx(shape, i, k)
                s2 = St({}, s.facts).assume(*rng)
                wit = idx(shape, None, None, m)
            # member: the value is the statistic of the entry the maximum was found at
            with set_facts(s.facts):
                g = eq(v, mul(ten, log10(stat(A2, *wit))))
            cx.obl(label + ": attained by an entry", fn, "post", s.facts, g)
            for w, bd in zip(wit, shape if len(wit) == 2 else shape[1:]):
                cx.obl(label + ": by an entry of the array", fn, "post", s.facts, band(le(ZERO_I, w), lt(w, bd)))
            with set_facts(s2.facts):
                s3 = s2.clone().assume(bound(pos))
                with set_facts(s3.facts):
                    g = le(stat(A2, *ix), stat(A2, *wit))
            cx.obl(label + ": no entry is larger", fn, "post", s3.facts, g)

    def entries(shape, i, k, m=None):
        rows, cols = shape
        if m is not None:
            return (idiv(m, cols), imod(m, cols))
        return (i, k), add(mul(i, cols), k), [le(ZERO_I, i), lt(i, rows), le(ZERO_I, k), lt(k, cols)]

    def columns(shape, i, k, m=None):
        if m is not None:
            return (m,)
        return (k,), k, [le(ZERO_I, k), lt(k, shape[1])]

    def dcs(A2, k):
        rows = A2.xs[0]
        top = Sum(rows.len, lambda w: nsq(rows.at(w).at(k)))
        return rdiv(top, nsq(rows.at(ZERO_I).at(k)))
    mag = lambda A2, i, k: nsq(A2.xs[0].at(i).at(k))
    for fn, given, stat, idx, lab in (("max_cut_detector", False, mag, entries, "max cut of a signal"),
                                      ("max_cut_detector_sxf", True, mag, entries, "max cut of an array"),
                                      ("dcs_detector", False, dcs, columns, "DCS of a signal"),
                                      ("dcs_detector_sxf", True, dcs, columns, "DCS of an array")):
        cx.guard(lab, lambda: peak(fn, given, stat, idx, lab))
    cx.assumed.add("DCS: the first entry of every column is taken to be nonzero (division by zero is an unspecified value here)")
