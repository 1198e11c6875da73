"""Contracts of the crate's own iterator adaptors (trait iter::Iter), and the proofs that the code satisfies them."""
from ..spec import *
from ..dep import shuf, perm, perminv, dft_at


# ---------------------------------------------------------------- the contracts as sequence functions
def e_chunks(s, k):
    n = None if s.len is None else cdiv(s.len, k)

    def gen(i):
        if s.len is None:
            return Seq(k, gen=lambda w: s.at(add(mul(i, k), w)))
        # k*Q + r elements with 1 <= r <= k: blocks 0 .. Q-1 are full, block Q has r
        Q, r = TM._split(s.len, k)
        if is_num(r) and nval(r) == 0:
            m = k
        elif not (is_num(Q) and nval(Q) == 0) and entails(le(ONE_I, r)) and entails(le(r, k)):
            m = ite(lt(i, Q), k, r)
        else:
            m = mini(k, sub(s.len, mul(i, k)))
        return Seq(m, gen=lambda w: s.at(add(mul(i, k), w)))
    return Seq(n, gen=gen)


def e_wchunks(s, k, zero):
    n = None if s.len is None else cdiv(s.len, k)

    def gen(i):
        def at(w):
            q = add(mul(i, k), w)
            if s.len is None:
                return s.at(q)
            c = lt(q, s.len)
            if c is TRUE or entails(c):
                return s.at(q)
            if c is FALSE or entails(bnot(c)):
                return zero
            with with_facts([c]):
                x = s.at(q)
            return merge(c, x, zero)
        return Seq(k, gen=at)
    return Seq(n, gen=gen)


def e_inflate(s, c):
    return Seq(None if s.len is None else mul(s.len, c), gen=lambda i: s.at(idiv(i, c)))


def e_take_every(s, c):
    return Seq(None if s.len is None else cdiv(s.len, c), gen=lambda i: s.at(mul(i, c)))


def vscale(v, f):
    if isinstance(v, T):
        return mul(v, f)
    if isinstance(v, Struct) and v.name == "Complex":
        return Struct("Complex", [mul(x, f) for x in v.xs])
    raise Unsupported("scale of %s" % type(v).__name__)


def e_scale(s, f):
    return Seq(s.len, gen=lambda i: vscale(s.at(i), f))


def vsum(n, f):
    """sum over w < n of f(w), lane by lane"""
    w = fresh("w")
    with with_facts([le(ZERO_I, w), lt(w, n)]):
        v = f(w)
        return _vsum(n, w, v)


def _vsum(n, w, v):
    if isinstance(v, T):
        return sum_(n, w, v)
    if isinstance(v, Struct):
        return Struct(v.name, [_vsum(n, w, x) for x in v.xs])
    if isinstance(v, Tup):
        return Tup([_vsum(n, w, x) for x in v.xs])
    if isinstance(v, Seq):
        if v.items is not None:
            return lit([_vsum(n, w, x) for x in v.items], v.kind)
        return Seq(v.len, gen=lambda k: _vsum(n, w, v.at(k)), kind=v.kind)
    raise Unsupported("sum of %s" % type(v).__name__)


def e_integrate(s):
    return Seq(s.len, gen=lambda i: vsum(add(i, ONE_I), lambda w: s.at(w)))


def e_dump(s, d):
    return Seq(None if s.len is None else idiv(s.len, d), gen=lambda i: vsum(d, lambda w: s.at(add(mul(i, d), w))))


def vmul(v, f):
    if isinstance(v, T):
        return mul(v, f) if isinstance(f, T) else vmul(f, v)
    if isinstance(v, Seq):
        if v.items is not None:
            return lit([vmul(x, f) for x in v.items], v.kind)
        return Seq(v.len, gen=lambda k: vmul(v.at(k), f), kind=v.kind)
    if isinstance(v, Struct) and v.name == "Complex" and isinstance(f, T):
        return Struct("Complex", [mul(x, f) for x in v.xs])
    raise Unsupported("product of %s" % type(v).__name__)


def e_convolve(s, h):
    """full linear convolution; filter of at least one tap, source non-empty"""
    m = h.len
    n = None if s.len is None else ite(eq(s.len, ZERO_I), ZERO_I, sub(add(s.len, m), ONE_I))

    def gen(i):
        # j ranges over max(0, i-len+1) .. min(m, i+1)
        hi = mini(m, add(i, ONE_I))
        lo = ZERO_I if s.len is None else maxi(ZERO_I, sub(add(i, ONE_I), s.len))
        return vsum(sub(hi, lo), lambda w: vmul(s.at(sub(i, add(lo, w))), h.at(add(lo, w))))
    return Seq(n, gen=gen)


def cdiv(n, k):
    return idiv(add(n, sub(k, ONE_I)), k)


def lin(low, high, n, k):
    """point k of the n-point grid from low towards high"""
    return add(toreal(low), mul(toreal(k), sub(toreal(high), toreal(low)), inv(n)))


def e_hop(low, high, n, seed):
    """hop t: grid point shuf(seed, t div n + 1, n, t mod n)"""
    return Seq(None, gen=lambda t: lin(low, high, n, shuf(seed, add(idiv(t, n), ONE_I), n, imod(t, n))))


def e_logistic(x0, mu):
    """iterates 1, 2, .. of the logistic map"""
    return Seq(None, gen=lambda t: app("logi", (toreal(mu), toreal(x0), add(t, ONE_I)), "R"))


def e_chebyshev(x0):
    return Seq(None, gen=lambda t: app("cheb", (toreal(x0), add(t, ONE_I)), "R"))


def logistic_step(mu, x):
    return mul(mu, x, sub(num(1, "R"), x))


def chebyshev_step(x):
    return sub(mul(num(3, "R"), powi(x, 3)), mul(num(2, "R"), x))


# the orbits are defined by iteration: orbit 0 is the start, orbit k + 1 the map of orbit k
def _orbit(name, nk, args, step):
    k = args[nk]
    if is_num(k) and nval(k) == 0:
        return args[nk - 1]
    return app(name, args, "R")


TM._app_hooks["logi"] = lambda name, args, sort: _orbit("logi", 2, args, None)
TM._app_hooks["cheb"] = lambda name, args, sort: _orbit("cheb", 1, args, None)


def _ax_orbit(name, nk, step):
    def ax(a):
        args = a.args[1]
        k = args[nk]
        p = _orbit(name, nk, args[:nk] + (sub(k, ONE_I),), None)
        return [implies(le(ONE_I, k), eq(a, step(args, p))), implies(eq(k, ZERO_I), eq(a, args[nk - 1]))]
    return ax


P.APP_AXIOMS["logi"] = [_ax_orbit("logi", 2, lambda g, p: logistic_step(g[0], p))]
P.APP_AXIOMS["cheb"] = [_ax_orbit("cheb", 1, lambda g, p: chebyshev_step(p))]


def _ev_orbit(nk, step):
    def f(env, t, a):
        x, k = a[nk - 1], a[nk]
        if not 0 <= k <= 3000:
            raise P.EvalError("orbit index")
        for _ in range(k):
            x = step(a, x)
            if abs(x) > 1e12:
                raise P.EvalError("orbit escapes")
        return x
    return f


P.APP_EVAL["logi"] = _ev_orbit(2, lambda a, x: a[0] * x * (1 - x))
P.APP_EVAL["cheb"] = _ev_orbit(1, lambda a, x: 3 * x ** 3 - 2 * x)


# ---------------------------------------------------------------- as callee contracts
def _src(ex, a, st):
    it = S.as_it(ex, a, st)
    if it.org is not None:
        raise Unsupported("adaptor over a borrowed iterator")
    return it.rest()


def _need(ex, st, c, what):
    ex.panics.append(E.Panic(st.facts, bnot(c), "precondition of %s" % what, what))


def contracts():
    def c_chunks(ex, a, st):
        with set_facts(st.facts):
            _need(ex, st, le(ONE_I, a[1]), "Iter::chunks")
            return It(e_chunks(_src(ex, a[0], st), a[1]))

    def c_wchunks(ex, a, st):
        with set_facts(st.facts):
            _need(ex, st, le(ONE_I, a[1]), "Iter::wchunks")
            s = _src(ex, a[0], st)
            x = s.at(ZERO_I) if s.items else (s.template()[1] if s.items is None else None)
            return It(e_wchunks(s, a[1], zero_like(x)))

    def c_inflate(ex, a, st):
        with set_facts(st.facts):
            _need(ex, st, le(ONE_I, a[1]), "Iter::inflate")
            return It(e_inflate(_src(ex, a[0], st), a[1]))

    def c_take(ex, a, st):
        with set_facts(st.facts):
            _need(ex, st, le(ONE_I, a[1]), "Iter::take_every")
            return It(e_take_every(_src(ex, a[0], st), a[1]))

    def c_scale(ex, a, st):
        with set_facts(st.facts):
            return It(e_scale(_src(ex, a[0], st), a[1]))

    def c_int(ex, a, st):
        with set_facts(st.facts):
            return It(e_integrate(_src(ex, a[0], st)))

    def c_dump(ex, a, st):
        with set_facts(st.facts):
            _need(ex, st, le(ONE_I, a[1]), "Iter::integrate_and_dump")
            return It(e_dump(_src(ex, a[0], st), a[1]))

    def c_conv(ex, a, st):
        with set_facts(st.facts):
            h = S.as_seq(ex, a[1], st)
            _need(ex, st, le(ONE_I, h.len), "Iter::convolve")
            return It(e_convolve(_src(ex, a[0], st), h))

    def c_hop(ex, a, st):
        with set_facts(st.facts):
            _need(ex, st, le(ONE_I, a[2]), "HopTable::new")
            return It(e_hop(a[0], a[1], a[2], a[3]))

    def c_logistic(ex, a, st):
        with set_facts(st.facts):
            _need(ex, st, band(le(num(0, "R"), a[1]), le(a[1], num(1, "R"))), "LogisticMap::new")
            return It(e_logistic(a[1], a[0]))

    def c_cheb(ex, a, st):
        with set_facts(st.facts):
            _need(ex, st, band(le(num(-1, "R"), a[0]), le(a[0], num(1, "R"))), "Chebyshev::new")
            return It(e_chebyshev(a[0]))
    return {"HopTable::new": c_hop, "LogisticMap::new": c_logistic, "Chebyshev::new": c_cheb, "Iter::chunks": c_chunks, "Iter::wchunks": c_wchunks, "Iter::inflate": c_inflate,
            "Iter::take_every": c_take, "Iter::scale": c_scale, "Iter::integrate": c_int, "Iter::nintegrate": c_int,
            "Iter::integrate_and_dump": c_dump, "Iter::nintegrate_and_dump": c_dump, "Iter::convolve": c_conv,
            "Iter::nonvolve": c_conv}


def zero_like(x):
    if isinstance(x, T):
        return FALSE if x.sort == "B" else num(0, x.sort)
    if isinstance(x, Struct) and x.name == "Complex":
        return Struct("Complex", (num(0, "R"), num(0, "R")))
    if isinstance(x, Byte):
        return byte_const(0)
    if isinstance(x, Tup):
        return Tup([zero_like(y) for y in x.xs])
    raise Unsupported("default of %s" % type(x).__name__)


# ---------------------------------------------------------------- the proofs
def ctor(cx, ex, name, args, st):
    f = None
    for n, g in cx.mir.fns.items():
        if n.endswith("Iter::%s" % name) and "iter" in n:
            f = g
            break
    if f is None:
        raise Unsupported("adaptor Iter::%s is not in the compiled crate (lost anchor)" % name)
    outs = cx.call(ex, f, args, st, "Iter::%s" % name)
    s, v = S.one(outs, name)
    if not isinstance(v, Struct):
        if isinstance(v, It):
            return s, v
        raise Unsupported("%s does not build an iterator struct" % name)
    return s, v


def check_stream(cx, ex, label, st, v, want, regular=None, extra=3, **kw):
    if isinstance(v, It):
        cx.equal_seq(label, label, st, v, want)
    else:
        cx.stream(label, ex, v, st, want, regular, extra, **kw)


def prep(cx, lens, extra=()):
    ex = cx.exec()
    ex.generic_zero = {"T": num(0, "R")}
    ex.generic_const = {"N": var("N")}
    facts = list(extra)
    for n in lens:
        facts.append(le(ZERO_I, n))
    return ex, St({}, ()).assume(*facts)


def int_cands(k):
    return [lambda t, v0: mul(t, k), lambda t, v0: idiv(t, k), lambda t, v0: imod(t, k),
            lambda t, v0: add(ONE_I, imod(t, k)), lambda t, v0: add(ONE_I, idiv(t, k)),
            lambda t, v0: add(ONE_I, mul(t, k)), lambda t, v0: sub(k, imod(t, k)),
            lambda t, v0: sub(sub(k, ONE_I), imod(t, k)), lambda t, v0: mini(t, k)]


def elt_cands(x, k):
    return [lambda t, v0: x.at(idiv(t, k))]


def prove_adaptor(cx, name):
    if name in ("HopTable", "LogisticMap", "Chebyshev"):
        cx.guard(name, lambda: PROOFS[name](cx, name, var("n")))
        return
    for endless in (False, True):
        lab = "%s (%s source)" % (name, "endless" if endless else "finite")
        cx.guard(lab, lambda: PROOFS[name](cx, lab, None if endless else var("n")))


def src(n, st, sort="R", name="x"):
    with set_facts(st.facts):
        return symseq(name, n, sort)


def lens(n):
    return [n] if n is not None else []


def p_chunks(cx, lab, n):
    k = var("k")
    ex, st = prep(cx, lens(n), [le(ONE_I, k)])
    x = src(n, st)
    ex.period = k
    ex.leaf_candidates = int_cands(k) + elt_cands(x, k)
    st, v = ctor(cx, ex, "chunks", [It(x), k], st)
    with set_facts(st.facts):
        check_stream(cx, ex, lab, st, v, e_chunks(x, k), None if n is None else idiv(n, k))


def p_wchunks(cx, lab, n):
    k = var("k")
    ex, st = prep(cx, lens(n), [le(ONE_I, k)])
    x = src(n, st)
    ex.period = k
    ex.leaf_candidates = int_cands(k) + elt_cands(x, k)
    st, v = ctor(cx, ex, "wchunks", [It(x), k], st)
    with set_facts(st.facts):
        check_stream(cx, ex, lab, st, v, e_wchunks(x, k, num(0, "R")), None if n is None else idiv(n, k))


def p_inflate(cx, lab, n):
    k = var("k")
    ex, st = prep(cx, lens(n), [le(ONE_I, k)])
    x = src(n, st)
    ex.period = k
    ex.leaf_candidates = int_cands(k) + elt_cands(x, k)
    st, v = ctor(cx, ex, "inflate", [It(x), k], st)
    with set_facts(st.facts):
        check_stream(cx, ex, lab, st, v, e_inflate(x, k))


def p_take(cx, lab, n):
    k = var("k")
    ex, st = prep(cx, lens(n), [le(ONE_I, k)])
    x = src(n, st)
    ex.leaf_candidates = int_cands(k) + elt_cands(x, k)
    st, v = ctor(cx, ex, "take_every", [It(x), k], st)
    with set_facts(st.facts):
        check_stream(cx, ex, lab, st, v, e_take_every(x, k), None if n is None else cdiv(n, k), peels=(1, 0))


def p_scale(cx, lab, n):
    f = var("f", "R")
    ex, st = prep(cx, lens(n))
    x = src(n, st)
    st, v = ctor(cx, ex, "scale", [It(x), f], st)
    with set_facts(st.facts):
        check_stream(cx, ex, lab, st, v, e_scale(x, f))


def p_integrate(cx, lab, n):
    ex, st = prep(cx, lens(n))
    x = src(n, st)
    st, v = ctor(cx, ex, "integrate", [It(x)], st)
    with set_facts(st.facts):
        check_stream(cx, ex, lab, st, v, e_integrate(x))


def p_dump(cx, lab, n):
    d = var("d")
    ex, st = prep(cx, lens(n), [le(ONE_I, d)])
    x = src(n, st)
    ex.period = d
    ex.leaf_candidates = int_cands(d)
    st, v = ctor(cx, ex, "integrate_and_dump", [It(x), d], st)
    with set_facts(st.facts):
        check_stream(cx, ex, lab, st, v, e_dump(x, d))


def p_nint(cx, lab, n):
    N = var("N")
    ex, st = prep(cx, lens(n), [le(ZERO_I, N)])
    with set_facts(st.facts):
        x = sym_arr("x", n, N)
    st, v = ctor(cx, ex, "nintegrate", [It(x)], st)
    with set_facts(st.facts):
        check_stream(cx, ex, lab, st, v, e_integrate(x))


def p_ndump(cx, lab, n):
    N, d = var("N"), var("d")
    ex, st = prep(cx, lens(n), [le(ZERO_I, N), le(ONE_I, d)])
    with set_facts(st.facts):
        x = sym_arr("x", n, N)
    ex.period = d
    ex.leaf_candidates = int_cands(d)
    st, v = ctor(cx, ex, "nintegrate_and_dump", [It(x), d], st)
    with set_facts(st.facts):
        check_stream(cx, ex, lab, st, v, e_dump(x, d))


def window(x, m):
    """the filter delay line after t inputs: the last min(t, m) inputs, newest first"""
    def f(t, v0):
        if not isinstance(v0, Seq):
            return None
        return Seq(mini(t, m), gen=lambda w: x.at(sub(sub(t, ONE_I), w)), kind=v0.kind)
    return f


def delayed(x):
    """the same for a delay line that the code bounds by C"""
    def f(t, C, v0):
        if not isinstance(v0, Seq) or not entails(le(ONE_I, C)):
            return None
        return Seq(mini(t, C), gen=lambda w: x.at(sub(sub(t, ONE_I), w)), kind=v0.kind)
    return f


def p_conv(cx, lab, n, name="convolve", lanes=False):
    m, N = var("m"), var("N")
    ex, st = prep(cx, lens(n), [le(ONE_I, m)] + ([le(ZERO_I, N)] if lanes else []) + ([le(ONE_I, n)] if n is not None else []))
    with set_facts(st.facts):
        x = sym_arr("x", n, N) if lanes else symseq("x", n)
        h = symseq("h", m)
    ex.leaf_candidates, ex.delay = [window(x, m)], delayed(x)
    st, v = ctor(cx, ex, name, [It(x), h], st)
    with set_facts(st.facts):
        check_stream(cx, ex, lab, st, v, e_convolve(x, h), phases=[n, sub(m, ONE_I)] if n is not None else None)


def p_nconv(cx, lab, n):
    return p_conv(cx, lab, n, "nonvolve", True)


def method(cx, ty, meth):
    f = cx.mir.methods.get((None, ty, meth))
    if not f:
        raise Unsupported("%s::%s is not in the compiled crate (lost anchor)" % (ty, meth))
    return f[0]


def p_hop(cx, lab, n):
    if n is None:
        return
    N, seed, low, high = var("N"), var("seed"), var("low", "R"), var("high", "R")
    for sfx, fact in ((" one frequency", eq(N, ONE_I)), (" several frequencies", le(num(2), N))):
        ex, st = prep(cx, [], [le(ONE_I, N), fact, le(ZERO_I, seed)])
        if sfx == " one frequency":
            N = ONE_I
            ex, st = prep(cx, [], [le(ZERO_I, seed)])
        else:
            N = var("N")
            ex.period = N

            def m(t, N=N):
                return add(idiv(t, N), ite(eq(imod(t, N), ZERO_I), ZERO_I, ONE_I))
            ex.leaf_candidates = [lambda t, v0: imod(t, N), lambda t, v0: m(t),
                                  lambda t, v0: Seq(N, gen=lambda k: lin(low, high, N, shuf(seed, m(t), N, k)), kind=v0.kind)
                                  if isinstance(v0, Seq) else None]
        for s, v in cx.call(ex, method(cx, "HopTable", "new"), [low, high, N, seed], st, lab + sfx):
            with set_facts(s.facts):
                check_stream(cx, ex, lab + sfx, s, v, e_hop(low, high, N, seed))


def p_logistic(cx, lab, n):
    if n is None:
        return
    x0, mu = var("x0", "R"), var("mu", "R")
    ex, st = prep(cx, [], [le(num(0, "R"), x0), le(x0, num(1, "R"))])
    ex.leaf_candidates = [lambda t, v0: app("logi", (mu, x0, t), "R") if not (is_num(t) and nval(t) == 0) else x0]
    for s, v in cx.call(ex, method(cx, "LogisticMap", "new"), [mu, x0], st, lab):
        with set_facts(s.facts):
            check_stream(cx, ex, lab, s, v, e_logistic(x0, mu))


def p_cheb(cx, lab, n):
    if n is None:
        return
    x0 = var("x0", "R")
    ex, st = prep(cx, [], [le(num(-1, "R"), x0), le(x0, num(1, "R"))])
    ex.leaf_candidates = [lambda t, v0: app("cheb", (x0, t), "R") if not (is_num(t) and nval(t) == 0) else x0]
    for s, v in cx.call(ex, method(cx, "Chebyshev", "new"), [x0], st, lab):
        with set_facts(s.facts):
            check_stream(cx, ex, lab, s, v, e_chebyshev(x0))


PROOFS = {"HopTable": p_hop, "LogisticMap": p_logistic, "Chebyshev": p_cheb, "chunks": p_chunks, "wchunks": p_wchunks, "inflate": p_inflate, "take_every": p_take, "scale": p_scale,
          "integrate": p_integrate, "integrate_and_dump": p_dump, "nintegrate": p_nint,
          "nintegrate_and_dump": p_ndump, "convolve": p_conv, "nonvolve": p_nconv}
CONTRACTS = contracts()
