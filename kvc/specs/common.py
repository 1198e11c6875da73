"""Vocabulary shared by the specifications: symbolic messages, rates, reference waveforms."""
from fractions import Fraction
from ..spec import *
from . import adaptors as A

N0 = var("n")


def base(cx, facts=(), contracts=True, gz=True):
    ex = cx.exec(A.CONTRACTS if contracts else {})
    return ex, St({}, ()).assume(*facts)


def adaptors(cx, *names):
    """the proofs of the adaptor contracts this property relies on"""
    for n in names:
        A.prove_adaptor(cx, n)


def bits(st, n, name="m"):
    with set_facts(st.facts):
        return symseq(name, n, "B")


def reals(st, n, name="y"):
    with set_facts(st.facts):
        return symseq(name, n, "R")


def cplx(st, n, name="z"):
    with set_facts(st.facts):
        return symcx(name, n)


def C(re, im):
    return Struct("Complex", (re, im))


def rate_vars():
    """sample rate K*R, symbol rate R, carrier f at most half the sample rate"""
    K, R, f = var("K"), var("R"), var("f", "R")
    return K, R, mul(K, R), f


def rate_facts(K, R, f=None):
    fs = [le(ONE_I, K), le(ONE_I, R)]
    if f is not None:
        fs += [le(mul(num(2, "R"), f), toreal(mul(K, R)))]
    return fs


def post(cx, ex, fn, args, st, want, label, contract=None):
    """the result of fn(args) is exactly the sequence / value `want` (a function of the final state)"""
    for s, v in cx.call(ex, fn, args, st, label, contract=contract or label):
        with set_facts(s.facts):
            w = want() if callable(want) else want
        cx.equal_seq(label, fn if isinstance(fn, str) else fn.name, s, v, w) if isinstance(v, (It, Seq)) else \
            cx.equal(label, fn if isinstance(fn, str) else fn.name, s.facts, v, w)
    return s, v


def bpsk_wave(m, K, fs, f):
    n = None if m.len is None else mul(m.len, K)
    return Seq(n, gen=lambda i: mul(sgn(m.at(idiv(i, K))), cos(omega(f, i, fs))))


def qpsk_wave(m, K, fs, f):
    two = num(2)
    n = None if m.len is None else mul(idiv(m.len, two), K)

    def gen(i):
        k = mul(two, idiv(i, K))
        return sub(mul(sgn(m.at(k)), cos(omega(f, i, fs))), mul(sgn(m.at(add(k, ONE_I))), sin(omega(f, i, fs))))
    return Seq(n, gen=gen)


def corr(y, k, K, fs, f, trig):
    """correlation of block k of y with trig(2 pi f i / fs)"""
    def g(w):
        i = add(mul(k, K), w)
        return mul(y.at(i), trig(omega(f, i, fs)))
    return Sum(K, g)


def negsin(t):
    return neg(sin(t))


def bpsk_decide(y, K, fs, f):
    n = None if y.len is None else idiv(y.len, K)
    return Seq(n, gen=lambda k: lt(num(0, "R"), corr(y, k, K, fs, f, cos)))


def qpsk_decide(y, K, fs, f):
    two = num(2)
    n = None if y.len is None else mul(two, idiv(y.len, K))

    def gen(i):
        k = idiv(i, two)
        a = le(num(0, "R"), corr(y, k, K, fs, f, cos))
        b = le(num(0, "R"), corr(y, k, K, fs, f, negsin))
        return ite(eq(imod(i, two), ZERO_I), a, b)
    return Seq(n, gen=gen)


def lengths(f):
    """run a specification for a finite and for an endless input"""
    f(" (finite message)", var("n"))
    f(" (endless message)", None)


def lf(n):
    return [le(ZERO_I, n)] if n is not None else []


def bch_contracts(seen, name="coded"):
    """callee contracts of the stream code (proved under C06): the result is some bit stream, endless when the input is;
    the inputs are recorded so that a specification can state which stream was coded"""
    def mk(which):
        def c(ex, a, st):
            with set_facts(st.facts):
                s = A._src(ex, a[0], st)
            if ("n", which) not in seen:
                seen["n", which] = None if s.len is None else var("n" + which + name)
            seen.setdefault(which, []).append((st, s))
            n = seen["n", which]
            if (n is None) != (s.len is None):
                raise Unsupported("coded streams of different kinds")
            return It(symseq(name + which, n, "B"))
        return c
    r = dict(A.CONTRACTS)
    r["bch::bch_stream_encode"] = mk("enc")
    r["bch::bch_stream_decode"] = mk("dec")
    return r


def opaque_stages(seen, table, contracts=None):
    """callee contracts with unconstrained results: `table` maps a function to (name, sort of the elements, length of the
    result from the length of the input or None); inputs are recorded, so a specification can state what was passed on"""
    def mk(fn, name, sort, length):
        def c(ex, a, st):
            with set_facts(st.facts):
                s = A._src(ex, a[0], st)
                n = None if s.len is None else (length(s.len) if length else var("n" + name))
            seen.setdefault(fn, []).append((st, s, a[1:], n))
            return It(symcx(name, n) if sort == "C" else symseq(name, n, sort))
        return c
    r = dict(A.CONTRACTS if contracts is None else contracts)
    for fn, (name, sort, length) in table.items():
        r[fn] = mk(fn, name, sort, length)
    return r


def staged(cx, seen, fn, by, want, args, label):
    """the stage fn was called once, with the stream `want` and the further arguments `args`"""
    got = seen.get(fn, [])
    cx.obl(label + ": one call", by, "post", [], B(len(got) == 1))
    for st, s, rest, n in got:
        with set_facts(st.facts):
            w = want() if callable(want) else want
        cx.equal_seq(label, by, st, s, w)
        for k, (x, y) in enumerate(zip(rest, args)):
            cx.equal(label + ": argument %d" % (k + 2), by, st.facts, x, y)


def qpsk_symbols(m):
    two, r2 = num(2), sqrt(num(2, "R"))
    n = None if m.len is None else idiv(m.len, two)
    return Seq(n, gen=lambda i: C(*[mul(r2, sgn(m.at(add(mul(two, i), num(k))))) for k in range(2)]))


def on_carrier(z, s, fs, f, sign=1):
    """Re(z exp(sign j 2 pi f i / fs)), every element of z held for s samples"""
    n = None if z.len is None else mul(z.len, s)

    def gen(i):
        re, im = z.at(idiv(i, s)).xs
        th = omega(f(i) if callable(f) else f, i, fs)
        a, b = mul(re, cos(th)), mul(im, sin(th))
        return sub(a, b) if sign > 0 else add(a, b)
    return Seq(n, gen=gen)
