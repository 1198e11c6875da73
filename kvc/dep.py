"""Contracts assumed for the dependencies: rand, rand_distr, rustfft, realfft, reed-solomon.

StdRng     seeded with s; draws are functions of s and of how many draws came before.
shuffle    element k of the result is element perm(s, c, n, k) of the slice, perm(s, c, n, .) a permutation of 0..n.
shuf       c shuffles one after the other: shuf(s, 0, n, k) = k, shuf(s, c+1, n, k) = shuf(s, c, n, perm(s, c, n, k))
           (a definition; that it is a permutation is proved by induction under C13).
Normal     mean + deviation * gauss(r, i), the i-th draw of generator r.
realfft    see below; even lengths.
FFT        forward: X[k] = sum over w of x[w] exp(-2 pi j k w / n); inverse: the same with +, neither scaled.
"""
import random
from .std import *
from .std import h, strip, cx, is_cx, as_seq, as_it, mkit, store
from . import prove as PV


# ---------------------------------------------------------------- random numbers
def perm(s, c, n, k):
    return app("perm", (s, c, n, k), "I")


def perminv(s, c, n, k):
    return app("perminv", (s, c, n, k), "I")


def _mk_perm(name, args, sort):
    s, c, n, k = args
    if k.op == "app" and k.args[0] == "perminv" and tuple(k.args[1][:3]) == (s, c, n):
        return k.args[1][3]
    return app("perm", args, "I")


def _mk_perminv(name, args, sort):
    s, c, n, k = args
    if k.op == "app" and k.args[0] == "perm" and tuple(k.args[1][:3]) == (s, c, n):
        return k.args[1][3]
    return app("perminv", args, "I")


def shuf(s, c, n, k):
    if is_num(c) and nval(c) == 0:
        return k
    if k.op == "app" and k.args[0] == "perm" and k.args[1][0] is s and k.args[1][2] is n:
        c1 = k.args[1][1]
        if c1 is c or entails(eq(c1, c)):
            return shuf(s, add(c, ONE_I), n, k.args[1][3])
    return app("shuf", (s, c, n, k), "I")


def _case_n(args):
    """the range of a permutation of 0 .. n-1 (n and the position known)"""
    s, c, n, k = args
    if is_num(n) and is_num(k) and 0 <= nval(k) < nval(n) <= 64:
        return int(nval(n))
    return None


TM.CASE_RANGE["perm"] = TM.CASE_RANGE["perminv"] = _case_n


def _eq_hook(x, k):
    """perm(.., a) = y is perminv(.., y) = a"""
    if x.args[0] == "perm" and _case_n(x.args[1]) is not None and 0 <= k < nval(x.args[1][2]):
        s, c, n, a = x.args[1]
        return perminv(s, c, n, num(k)), int(nval(a))
    return None


TM.EQ_HOOKS.append(_eq_hook)
TM._app_hooks["perm"] = _mk_perm
TM._app_hooks["perminv"] = _mk_perminv
TM._app_hooks["shuf"] = lambda name, args, sort: shuf(*args)


def _ax_perm(a):
    s, c, n, k = a.args[1]
    inv_ = app("perminv", (s, c, n, a), "I")
    return [implies(band(le(ZERO_I, k), lt(k, n)), band(le(ZERO_I, a), lt(a, n), eq(inv_, k)))]


def _ax_perminv(a):
    s, c, n, k = a.args[1]
    if k.op == "app" and k.args[0] == "perm":
        return []
    p = app("perm", (s, c, n, a), "I")
    return [implies(band(le(ZERO_I, k), lt(k, n)), band(le(ZERO_I, a), lt(a, n), eq(p, k)))]


def _ax_shuf(a):
    s, c, n, k = a.args[1]
    inv_ = app("shufinv", (s, c, n, a), "I")
    return [implies(band(le(ZERO_I, k), lt(k, n), le(ZERO_I, c)), band(le(ZERO_I, a), lt(a, n), eq(inv_, k)))]


PV.APP_AXIOMS["perm"] = [_ax_perm]
PV.APP_AXIOMS["perminv"] = [_ax_perminv]
PV.APP_AXIOMS["shuf"] = [_ax_shuf]


def _np(seed, s, c, n):
    n = int(n)
    if n > 4000 or n < 0:
        raise PV.EvalError("long permutation")
    r = random.Random("%s|%s|%s|%s" % (seed, s, c, n))
    p = list(range(n))
    r.shuffle(p)
    return p


def _ev_perm(env, t, a):
    s, c, n, k = a
    p = _np(env.seed, s, c, n)
    return p[k] if 0 <= k < n else k


def _ev_perminv(env, t, a):
    s, c, n, k = a
    p = _np(env.seed, s, c, n)
    return p.index(k) if 0 <= k < n else k


def _ev_shuf(env, t, a):
    s, c, n, k = a
    if not 0 <= k < n or c > 3000:
        return k
    for i in range(c - 1, -1, -1):
        k = _np(env.seed, s, i, n)[k]
    return k


def _ev_shufinv(env, t, a):
    s, c, n, k = a
    if not 0 <= k < n or c > 3000:
        return k
    for i in range(c):
        k = _np(env.seed, s, i, n).index(k)
    return k


PV.APP_EVAL.update({"perm": _ev_perm, "perminv": _ev_perminv, "shuf": _ev_shuf, "shufinv": _ev_shufinv})


@h("SeedableRng::seed_from_u64")
def seed_from(ex, a, st, info):
    if "StdRng" not in info["callee"]:
        raise Unsupported("generator of " + info["callee"])
    return Opq("StdRng", (a[0], ZERO_I))


@h("rand::thread_rng", "thread_rng")
def thread_rng(ex, a, st, info):
    n = getattr(ex, "nrng", 0)
    ex.nrng = n + 1
    return Opq("ThreadRng", (num(n), ZERO_I))


def _rng_ref(ex, v, st):
    while isinstance(v, Ref) and isinstance(ex.get(v, st), Ref):
        v = ex.get(v, st)
    if not isinstance(v, Ref):
        raise Unsupported("generator by value")
    g = ex.get(v, st)
    if not (isinstance(g, Opq) and g.kind == "StdRng"):
        raise Unsupported("shuffle with %r" % (g,))
    return v, g


@h("SliceRandom::shuffle")
def shuffle(ex, a, st, info):
    r = a[0]
    while isinstance(r, Ref) and isinstance(ex.get(r, st), Ref):
        r = ex.get(r, st)
    s = as_seq(ex, r, st)
    rr, g = _rng_ref(ex, a[1], st)
    seed, c = g.xs
    n = s.len
    used = ex.__dict__.setdefault("rng_len", {})
    if used.setdefault(seed, n) is not n:
        raise Unsupported("one generator shuffles slices of different lengths")
    st = st.clone()
    with set_facts(st.facts):
        out = Seq(n, gen=lambda k: s.at(perm(seed, c, n, k)), kind=s.kind)
        if not (s.items is not None and len(s.items) == 0):
            ex.put(r, out, st)
        ex.put(rr, Opq("StdRng", (seed, add(c, ONE_I))), st)
    return [(st, UNIT)]


@h("Normal::new")
def normal_new(ex, a, st, info):
    return En("Result", ZERO_I, {0: (Opq("Normal", (a[0], a[1])),), 1: ()})


@h("Distribution::sample_iter")
def sample_iter(ex, a, st, info):
    d, g = strip(ex, a[0], st), a[1]
    if not (isinstance(d, Opq) and d.kind == "Normal" and isinstance(g, Opq) and g.kind == "ThreadRng"):
        raise Unsupported("sample_iter of %r with %r" % (d, g))
    m, s = d.xs
    rid, c = g.xs
    return It(Seq(None, gen=lambda i: add(m, mul(s, app("gauss", (rid, add(c, i)), "R")))))


def _draw(ex, r, st, f):
    """one draw of a thread generator behind a reference: f(generator, index)"""
    while isinstance(r, Ref) and isinstance(ex.get(r, st), Ref):
        r = ex.get(r, st)
    g = ex.get(r, st) if isinstance(r, Ref) else None
    if not (isinstance(g, Opq) and g.kind == "ThreadRng"):
        raise Unsupported("a draw from %r" % (g,))
    rid, c = g.xs
    st = st.clone()
    with set_facts(st.facts):
        ex.put(r, Opq("ThreadRng", (rid, add(c, ONE_I))), st)
        return [(st, f(rid, c))]


@h("Rng::gen", "Rng::random")
def rng_gen(ex, a, st, info):
    if "bool" not in info["callee"].split("::<")[-1]:
        raise Unsupported("draw of " + info["callee"])
    return _draw(ex, a[0], st, lambda r, c: app("coin", (r, c), "B"))


@h("Distribution::sample")
def dist_sample(ex, a, st, info):
    d = strip(ex, a[0], st)
    if not (isinstance(d, Opq) and d.kind == "Normal"):
        raise Unsupported("sample of %r" % (d,))
    m, s = d.xs
    return _draw(ex, a[1], st, lambda r, c: add(m, mul(s, app("gauss", (r, c), "R"))))


@h("Rng::sample")
def rng_sample(ex, a, st, info):
    return dist_sample(ex, [a[1], a[0]], st, info)


# ---------------------------------------------------------------- Fourier transforms
@h("FftPlanner::new", "RealFftPlanner::new")
def planner(ex, a, st, info):
    return Opq("planner", ())


@h("FftPlanner::plan_fft_forward", "FftPlanner::plan_fft_inverse")
def plan(ex, a, st, info):
    return Opq("fft", (a[1], num(-1 if "forward" in info["callee"].split("plan_fft_")[-1] else 1, "R")))


@h("FftPlanner::plan_fft")
def plan2(ex, a, st, info):
    d = a[2]
    if not (isinstance(d, En) and is_num(d.tag)):
        raise Unsupported("FFT direction")
    return Opq("fft", (a[1], num(-1 if nval(d.tag) == 0 else 1, "R")))


@h("Fft::get_inplace_scratch_len", "Fft::get_outofplace_scratch_len")
def scratch_len(ex, a, st, info):
    f = strip(ex, a[0], st)
    x = app("fftscratch", (f.xs[0], f.xs[1]), "I")
    return x


PV.APP_AXIOMS["fftscratch"] = [lambda a: [le(ZERO_I, a)]]


@h("Fft::len")
def fft_len(ex, a, st, info):
    return strip(ex, a[0], st).xs[0]


def dft_at(x, n, k, sign):
    """sum over w < n of x[w] exp(sign 2 pi j k w / n)"""
    w = fresh("w")
    with with_facts([le(ZERO_I, w), lt(w, n)]):
        z = x.at(w)
        th = mul(num(2, "R"), sign, PI, toreal(k), toreal(w), inv(n))
        if not is_num(n):
            c, s = TM.cos(th), TM.sin(th)
            re, im = z.xs
            return cx(sum_(n, w, sub(mul(re, c), mul(im, s))), sum_(n, w, add(mul(re, s), mul(im, c))))
    tr = ti = num(0, "R")
    N = int(nval(n))
    for i in range(N):
        re, im = x.at(num(i)).xs
        th = mul(num(2, "R"), sign, PI, toreal(k), num(i, "R"), inv(n))
        c, s = TM.cos(th), TM.sin(th)
        tr = add(tr, sub(mul(re, c), mul(im, s)))
        ti = add(ti, add(mul(re, s), mul(im, c)))
    return cx(tr, ti)


def dft(x, n, sign):
    if is_num(n) and nval(n) <= 16:
        return lit([dft_at(x, n, num(k), sign) for k in range(int(nval(n)))], x.kind)
    return Seq(n, gen=lambda k: dft_at(x, n, k, sign), kind=x.kind)


def _inplace(ex, a, st, scratch):
    f = strip(ex, a[0], st)
    if not (isinstance(f, Opq) and f.kind == "fft"):
        raise Unsupported("transform by %r" % (f,))
    n, sign = f.xs
    r = a[1]
    while isinstance(r, Ref) and isinstance(ex.get(r, st), Ref):
        r = ex.get(r, st)
    x = as_seq(ex, r, st)
    with set_facts(st.facts):
        if not entails(eq(x.len, n)):
            raise Unsupported("transform of several blocks at once")
        if scratch:
            sl = as_seq(ex, a[2], st).len
            need = app("fftscratch", (n, sign), "I")
            ex.panics.append(Panic(st.facts, bnot(le(need, sl)), "the FFT scratch buffer is long enough", "process_with_scratch"))
        y = dft(x, n, sign)
        st = st.clone()
        ex.put(r, y, st)
    return [(st, UNIT)]


@h("Fft::process_with_scratch")
def fft_ps(ex, a, st, info):
    return _inplace(ex, a, st, True)


@h("Fft::process")
def fft_p(ex, a, st, info):
    return _inplace(ex, a, st, False)


# ---------------------------------------------------------------- real Fourier transforms (realfft, even lengths)
# forward: bins 0 .. n/2 of the DFT of the signal.  inverse: the real signal whose spectrum has these bins (the others being
# their conjugates), not scaled; Err (after the work is done) when bin 0 or bin n/2 is not real.  Both overwrite their input.
_rfft = [0]


@h("RealFftPlanner::plan_fft_forward")
def rplan(ex, a, st, info):
    return Opq("rfft", (a[1],))


@h("RealFftPlanner::plan_fft_inverse")
def rplan_inv(ex, a, st, info):
    return Opq("irfft", (a[1],))


def _bins(n):
    return add(idiv(n, num(2)), ONE_I)


@h("RealToComplex::make_output_vec", "ComplexToReal::make_input_vec")
def r_spec(ex, a, st, info):
    return Seq(_bins(strip(ex, a[0], st).xs[0]), gen=lambda k: cx(num(0, "R"), num(0, "R")))


@h("ComplexToReal::make_output_vec", "RealToComplex::make_input_vec")
def r_real(ex, a, st, info):
    return Seq(strip(ex, a[0], st).xs[0], gen=lambda k: num(0, "R"))


def rdft_at(x, n, k):
    w = fresh("w")
    with with_facts([le(ZERO_I, w), lt(w, n)]):
        v = x.at(w)
        th = mul(num(-2, "R"), PI, toreal(k), toreal(w), inv(n))
        return cx(sum_(n, w, mul(v, TM.cos(th))), sum_(n, w, mul(v, TM.sin(th))))


def irdft_at(X, n, i):
    """Re X[0] + (-1)^i Re X[n/2] + 2 sum over 0 < k < n/2 of Re(X[k] exp(2 pi j k i / n)), n even"""
    h_ = idiv(n, num(2))
    w = fresh("w")
    m = sub(h_, ONE_I)
    with with_facts([le(ZERO_I, w), lt(w, m)]):
        k = add(w, ONE_I)
        re, im = X.at(k).xs
        th = mul(num(2, "R"), PI, toreal(k), toreal(i), inv(n))
        t = sum_(m, w, sub(mul(re, TM.cos(th)), mul(im, TM.sin(th))))
    last = mul(TM.cos(mul(PI, toreal(i))), X.at(h_).xs[0])
    return add(X.at(ZERO_I).xs[0], last, mul(num(2, "R"), t))


def _real_transform(ex, a, st, n, forward):
    rs = [vref_(ex, r, st) for r in a[1:3]]
    x, out = [as_seq(ex, r, st) for r in rs]
    lens = (n, _bins(n)) if forward else (_bins(n), n)
    with set_facts(st.facts):
        if not (entails(eq(x.len, lens[0])) and entails(eq(out.len, lens[1]))):
            raise Unsupported("real transform with buffers of other lengths")
        if not entails(eq(imod(n, num(2)), ZERO_I)):
            raise Unsupported("real transform of odd length")
        if forward:
            y = Seq(lens[1], gen=lambda k: rdft_at(x, n, k))
            bad = FALSE
        else:
            y = Seq(lens[1], gen=lambda i: irdft_at(x, n, i))
            bad = bor(bnot(eq(x.at(ZERO_I).xs[1], num(0, "R"))), bnot(eq(x.at(idiv(n, num(2))).xs[1], num(0, "R"))))
        _rfft[0] += 1
        nm = "rfftwork%d" % _rfft[0]
        junk = symcx_(nm, lens[0]) if not forward else Seq(lens[0], gen=lambda k: app(nm, (k,), "R"))
        st = st.clone()
        ex.put(rs[0], junk, st)
        ex.put(rs[1], y, st)
        if bad is FALSE or entails(bnot(bad)):
            return [(st, En("Result", ZERO_I, {0: (UNIT,), 1: ()}))]
        return [(st, En("Result", ite(bad, ONE_I, ZERO_I), {0: (UNIT,), 1: (Opq("FftError", ()),)}))]


def symcx_(nm, n):
    return Seq(n, gen=lambda k: cx(app(nm + "r", (k,), "R"), app(nm + "i", (k,), "R")))


def vref_(ex, r, st):
    while isinstance(r, Ref) and isinstance(ex.get(r, st), Ref):
        r = ex.get(r, st)
    return r


@h("RealToComplex::process")
def r2c(ex, a, st, info):
    return _real_transform(ex, a, st, strip(ex, a[0], st).xs[0], True)


@h("ComplexToReal::process")
def c2r(ex, a, st, info):
    return _real_transform(ex, a, st, strip(ex, a[0], st).xs[0], False)


# ---------------------------------------------------------------- Reed-Solomon
# A message of at most 16 bytes is named by rskey (its 128 bits, absent ones zero) and its length.
# encode: the data bytes, then ecc parity bytes rspar(key, L, ecc, p).
# correct: Ok exactly when rsok(key, L, ecc), with bytes rsdec(key, L, ecc, i), i < L; data() is the first L - ecc of them.
# (Decoding what differs from an encoding in at most ecc div 2 bytes gives the encoded data: assumed where used, see specs/c06.py.)
RSMAX = 16


def byte_bits(v):
    if isinstance(v, T) and is_num(v):
        v = byte_const(int(nval(v)))
    if not isinstance(v, Byte):
        raise Unsupported("byte %r" % (v,))
    return v.bits


def rs_key(s):
    """the 128 bits of a byte sequence of at most 16 bytes"""
    if s.len is None or not entails(le(s.len, num(RSMAX))):
        raise Unsupported("Reed-Solomon message that may exceed %d bytes" % RSMAX)
    bs = []
    for w in range(RSMAX):
        c = lt(num(w), s.len)
        if c is FALSE or entails(bnot(c)):
            bs += [FALSE] * 8
            continue
        if c is TRUE or entails(c):
            bs += byte_bits(s.at(num(w)))
        else:
            with with_facts([c]):
                b = byte_bits(s.at(num(w)))
            bs += [band(c, x) for x in b]
    return app("rskey", tuple(bs), "I")


def rs_parity(s, ecc, p):
    key = rs_key(s)
    return Byte([app("rspar%d" % b, (key, s.len, ecc, p), "B") for b in range(8)])


def rs_encoded(s, ecc):
    L = s.len
    key = rs_key(s)

    def gen(i):
        c = lt(i, L)
        if c is TRUE or entails(c):
            return s.at(i)
        p = sub(i, L)
        par = Byte([app("rspar%d" % b, (key, L, ecc, p), "B") for b in range(8)])
        if c is FALSE or entails(bnot(c)):
            return par
        with with_facts([c]):
            d = byte_bits(s.at(i))
        return Byte([bor(band(c, x), band(bnot(c), y)) for x, y in zip(d, par.bits)])
    return Seq(add(L, ecc), gen=gen)


def rs_ok(s, ecc):
    return app("rsok", (rs_key(s), s.len, ecc), "B")


def rs_decoded(s, ecc):
    key = rs_key(s)
    return Seq(s.len, gen=lambda i: Byte([app("rsdec%d" % b, (key, s.len, ecc, i), "B") for b in range(8)]))


_EXP, _LOG = [0] * 512, [0] * 256
_x = 1
for _i in range(255):
    _EXP[_i], _LOG[_x] = _x, _i
    _x = (_x << 1) ^ (0x11D if _x & 0x80 else 0)
for _i in range(255, 512):
    _EXP[_i] = _EXP[_i - 255]


def gmul(a, b):
    return 0 if a == 0 or b == 0 else _EXP[_LOG[a] + _LOG[b]]


def py_rs_parity(data, ecc):
    gen = [1]
    for i in range(ecc):
        g2 = gen + [0]
        for j, g in enumerate(gen):
            g2[j + 1] ^= gmul(g, _EXP[i])
        gen = g2
    out = list(data) + [0] * ecc
    for i in range(len(data)):
        for j in range(1, ecc + 1):
            out[i + j] ^= gmul(out[i], gen[j])
    return out[len(data):]


def py_rs_correct(msg, ecc):
    """nearest codeword within ecc div 2 <= 2 byte errors, or None"""
    n = len(msg)
    syn = [0] * ecc
    for i in range(ecc):
        for c in msg:
            syn[i] = gmul(syn[i], _EXP[i]) ^ c
    if not any(syn):
        return list(msg)
    loc = [_EXP[n - 1 - p] for p in range(n)]
    pw = lambda a, i: _EXP[(_LOG[a] * i) % 255]
    if ecc >= 2:
        for p in range(n):
            e = syn[0]
            if e and all(gmul(e, pw(loc[p], i)) == syn[i] for i in range(ecc)):
                r = list(msg)
                r[p] ^= e
                return r
    if ecc >= 4:
        for p in range(n):
            for q in range(p):
                # e + f = s0, e x + f y = s1
                x, y = loc[p], loc[q]
                f = gmul(gmul(x, syn[0]) ^ syn[1], _EXP[255 - _LOG[x ^ y]])
                e = syn[0] ^ f
                if all(gmul(e, pw(x, i)) ^ gmul(f, pw(y, i)) == syn[i] for i in range(ecc)):
                    r = list(msg)
                    r[p] ^= e
                    r[q] ^= f
                    return r
    return None


def _rs_bytes(key, L):
    if not 0 <= L <= RSMAX:
        raise PV.EvalError("message length")
    return [(key >> (8 * i)) & 255 for i in range(L)]


_rs_cache = {}


def _rs_run(f, key, L, ecc):
    k = (f.__name__, key, L, ecc)
    if k not in _rs_cache:
        if len(_rs_cache) > 20000:
            _rs_cache.clear()
        _rs_cache[k] = f(_rs_bytes(key, L), ecc)
    return _rs_cache[k]


def _ev_par(b):
    def f(env, t, a):
        key, L, ecc, p = a
        r = _rs_run(py_rs_parity, key, L, ecc)
        return bool(r[p] >> b & 1) if 0 <= p < ecc else False
    return f


def _ev_dec(b):
    def f(env, t, a):
        key, L, ecc, i = a
        r = _rs_run(py_rs_correct, key, L, ecc)
        return bool(r[i] >> b & 1) if r is not None and 0 <= i < L else False
    return f


PV.APP_EVAL["rskey"] = lambda env, t, a: sum(1 << i for i, b in enumerate(a) if b)
PV.APP_EVAL["rsok"] = lambda env, t, a: _rs_run(py_rs_correct, a[0], a[1], a[2]) is not None
for _b in range(8):
    PV.APP_EVAL["rspar%d" % _b] = _ev_par(_b)
    PV.APP_EVAL["rsdec%d" % _b] = _ev_dec(_b)


@h("Encoder::new")
def rs_encoder(ex, a, st, info):
    return Opq("rsenc", (a[0],))


@h("Decoder::new")
def rs_decoder(ex, a, st, info):
    return Opq("rsdec", (a[0],))


@h("Encoder::encode")
def rs_encode(ex, a, st, info):
    e = strip(ex, a[0], st)
    s = as_seq(ex, a[1], st)
    with set_facts(st.facts):
        return Opq("rsbuf", (rs_encoded(s, e.xs[0]), s.len))


@h("Decoder::correct")
def rs_correct(ex, a, st, info):
    d = strip(ex, a[0], st)
    s = as_seq(ex, a[1], st)
    er = a[2]
    if not (isinstance(er, En) and is_num(er.tag) and nval(er.tag) == 0):
        raise Unsupported("Reed-Solomon erasures")
    ecc = d.xs[0]
    with set_facts(st.facts):
        ex.panics.append(Panic(st.facts, bnot(le(ecc, s.len)), "the received block is at least as long as its parity", "Decoder::correct"))
        ok = rs_ok(s, ecc)
        return En("Result", ite(ok, ZERO_I, ONE_I), {0: (Opq("rsbuf", (rs_decoded(s, ecc), sub(s.len, ecc))),), 1: (Opq("DecoderError", ()),)})


@h("Buffer::data")
def rs_data(ex, a, st, info):
    b = strip(ex, a[0], st)
    s, n = b.xs
    return PRef(Seq(n, gen=s.at))
