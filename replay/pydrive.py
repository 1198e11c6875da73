#!/usr/bin/env python3
"""pydrive.py PID SEED BUDGET KVREPLAY OUT: the compiled Python module against the compiled Rust functions (C27) and against
definitions written here (C29)."""
import json, math, random, struct, subprocess, sys, time
import numpy as np
PID, SEED, BUDGET, EXE, OUT = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), sys.argv[4], sys.argv[5]
rng = random.Random(SEED)
T0 = time.time()
stat = {"evaluations": 0, "samples": [], "skipped": {}, "fails": [], "hooks": None}
seen = set()
import komunikilo as K


def fail(inp, why):
    if len(stat["fails"]) < 5:
        stat["fails"].append({"input": inp[:600], "failure": why[:400]})


def case(inp, nontrivial=True):
    stat["evaluations"] += 1
    if nontrivial:
        seen.add(hash(inp))
    if len(stat["samples"]) < 8:
        stat["samples"].append(inp[:200])


def finish():
    stat["distinct_nontrivial"] = len(seen)
    json.dump(stat, open(OUT, "w"))


class Rust:
    def __init__(self):
        self.p = None

    def ask(self, line):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([EXE, "dump"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        try:
            self.p.stdin.write(line + "\n")
            self.p.stdin.flush()
            r = self.p.stdout.readline()
        except BrokenPipeError:
            return None
        return r.rstrip("\n") if r.endswith("\n") else None


def hexd(x):
    return "%016x" % struct.unpack("<Q", struct.pack("<d", x))[0]


def flat(v):
    """what the Python function returned, as the dump prints it"""
    if isinstance(v, np.ndarray):
        v = list(v.reshape(-1))
    if isinstance(v, float):
        v = [v]
    out = []
    for x in v:
        if isinstance(x, (bool, np.bool_)):
            out.append("1" if x else "0")
        elif isinstance(x, complex):
            out += [hexd(x.real), hexd(x.imag)]
        else:
            out.append(hexd(float(x)))
    return " ".join(out)


# name -> parameters
API = {"tx_baseband_bpsk": "message", "tx_bpsk": "message sample_rate symbol_rate carrier_freq",
       "rx_bpsk": "signal sample_rate symbol_rate carrier_freq", "tx_qpsk": "message sample_rate symbol_rate carrier_freq",
       "rx_qpsk": "signal sample_rate symbol_rate carrier_freq", "tx_cdma_bpsk": "message sample_rate symbol_rate carrier_freq",
       "tx_ofdm": "message subcarriers pilots sample_rate symbol_rate carrier_freq",
       "rx_ofdm": "signal subcarriers pilots sample_rate symbol_rate carrier_freq",
       "tx_csk": "message sample_rate symbol_rate", "tx_dcsk": "message sample_rate symbol_rate",
       "tx_bfsk": "message sample_rate symbol_rate freq_low freq_high",
       "tx_fh_css": "message sample_rate symbol_rate freq_low freq_high num_freqs",
       "tx_fh_ofdm_dcsk": "message sample_rate symbol_rate carrier_freq", "random_data": "num_bits", "awgn": "signal sigma",
       "pure_awgn": "size sigma", "chirp": "chirp_rate sample_rate f0 f1", "energy_detector": "signal", "avg_energy": "signal",
       "ssca": "s n np map_output", "max_cut_detector": "signal", "max_cut_detector_sxf": "sxf", "dcs_detector": "signal",
       "dcs_detector_sxf": "sxf"}


def api():
    for name, ps in API.items():
        case("name " + name)
        f = getattr(K, name, None)
        if f is None or not callable(f):
            fail("komunikilo." + name, "the module has no such function")
            continue
        k = len(ps.split())
        lo = 1 if name == "ssca" else k
        for n in range(0, k + 3):
            try:
                f(*[object()] * n)
                bad = "accepted %d arguments of no sensible type" % n
            except TypeError as e:
                s = str(e)
                arity = "positional arguments" in s or "missing" in s
                bad = None
                if lo <= n <= k and arity:
                    bad = "does not take %d arguments: %s" % (n, s)
                if not lo <= n <= k and not arity:
                    bad = "takes %d arguments, expected %d: %s" % (n, k, s)
            except BaseException as e:
                bad = "%d arguments: %s" % (n, e)
            if bad:
                fail("komunikilo." + name, bad)
                break


def bits(n):
    return [rng.random() < 0.5 for _ in range(n)]


def bs(m):
    return "".join("1" if b else "0" for b in m)


def rates():
    r = rng.choice([1, 2, 3, 5, 10, 50, 100])
    k = rng.choice([1, 2, 3, 4, 7, 8, 10, 16, 20])
    return r * k, r


def c27_case(R, name):
    n = rng.choice([0, 1, 2, 3, 5, 8, 17, 33])
    m, fs, r = bits(n), *rates()
    if rng.random() < 0.04 and name != "ssca_mapped" and name != "ssca":
        # long messages, at low rates
        n = rng.choice([300, 1030, 4100, 9000])
        m, r = bits(n), rng.choice([1, 3])
        fs = 2 * r
    fc = rng.choice([0.0, 1.0, rng.uniform(0, fs / 2), float(fs // 4), -rng.uniform(0, fs / 2)])
    sig = [rng.choice([0.0, 1.0, -1.0, rng.uniform(-3, 3)]) for _ in range(rng.choice([0, 1, fs // r, 3 * (fs // r) + 1, 40]))]
    lo = rng.uniform(0, fs / 4)
    hi = rng.uniform(lo, fs / 2)
    sub, pil = rng.choice([(4, 1), (8, 2), (16, 4), (64, 12), (10, 3)])
    A = {"tx_baseband_bpsk": (m,), "tx_bpsk": (m, fs, r, fc), "rx_bpsk": (sig, fs, r, fc), "tx_qpsk": (m, fs, r, fc), "rx_qpsk": (sig, fs, r, fc),
         "tx_cdma_bpsk": (m, fs * 32, r, fc), "tx_ofdm": (m, sub, pil, fs, r, fc), "rx_ofdm": (sig, sub, pil, fs, r, fc),
         "tx_bfsk": (m, fs, r, lo, hi), "tx_fh_css": (m, fs, r, lo, hi, rng.choice([1, 2, 3, 8, 16])), "tx_csk": (m, fs, r), "tx_dcsk": (m, fs, r),
         "tx_fh_ofdm_dcsk": (m, fs, r, fc), "chirp": (rng.uniform(0.5, 20), fs, lo, hi),
         "ssca": ([rng.uniform(-1, 1) for _ in range(24)], *rng.choice([(8, 4), (16, 8), (9, 4), (12, 5)])), "avg_energy": (sig or [1.0],)}
    name0 = name
    if name == "ssca_mapped":
        name = "ssca"
    a = A[name]
    if not hasattr(K, name):
        return
    case("%s%r" % (name0, a), n > 0)
    rest = [x for x in a if not isinstance(x, list)]
    lst = [x for x in a if isinstance(x, list)]
    isbits = lst and (not lst[0] or isinstance(lst[0][0], bool)) and name.startswith("tx")
    line = "%s|%s|%s|%s" % (name0, " ".join(repr(x) for x in rest), bs(lst[0]) if isbits else "", "" if isbits or not lst else " ".join(hexd(x) for x in lst[0]))
    want = R.ask(line)
    try:
        got = flat(getattr(K, name)(*(a + ((True,) if name0 == "ssca_mapped" else ()))))
    except BaseException as e:
        got = "panic" if type(e).__name__ == "PanicException" else "raised %s: %s" % (type(e).__name__, e)
    if want is None:
        stat["skipped"]["no answer from the Rust side"] = stat["skipped"].get("no answer from the Rust side", 0) + 1
        return
    if got != want:
        g, w = got.split(), want.split()
        k = next((i for i, (x, y) in enumerate(zip(g, w)) if x != y), min(len(g), len(w)))
        show = lambda v: v[k] if k < len(v) else "end"
        fail("%s%r" % (name0, a), "Python gives %d values, Rust %d; at %d: %s, Rust %s (f64 bits)" % (len(g), len(w), k, show(g), show(w)))


def c27_noise():
    n = rng.choice([0, 1, 2, 7, 50])
    s = [rng.uniform(-5, 5) for _ in range(n)]
    case("noise of length %d" % n)
    v = K.awgn(s, 0.0)
    if list(v) != s:
        fail("awgn(%r, 0.0)" % s, "noise of deviation 0 changes the signal: %r" % list(v)[:8])
    v = K.awgn([1e9] * n, 1.0)
    if len(v) != n or any(abs(x - 1e9) > 60 for x in v):
        fail("awgn([1e9] * %d, 1.0)" % n, "got %d values %r" % (len(v), list(v)[:5]))
    v = K.pure_awgn(n, 2.0)
    if len(v) != n:
        fail("pure_awgn(%d, 2.0)" % n, "%d values" % len(v))
    if any(x != 0 for x in K.pure_awgn(n, 0.0)):
        fail("pure_awgn(%d, 0.0)" % n, "noise of deviation 0 is not 0")
    d = K.random_data(n)
    if len(d) != n:
        fail("random_data(%d)" % n, "%d values" % len(d))


def c27_stat():
    """deviations and balance of long draws: far outside what chance allows"""
    for sg in (0.5, 3.0):
        for nm, v in (("pure_awgn", np.array(K.pure_awgn(40000, sg))), ("awgn", np.array(K.awgn([2.0] * 40000, sg)) - 2.0)):
            case("%s deviation %g" % (nm, sg))
            if abs(v.std() / sg - 1) > 0.05 or abs(v.mean()) > 0.05 * sg:
                fail("%s of 40000 samples, deviation %g" % (nm, sg), "deviation %g mean %g" % (v.std(), v.mean()))
    for v in (0.0, -0.0, 1.0, -1.0, -3.5, 1e-9):
        case("awgn on samples %g" % v)
        x = np.array(K.awgn([v] * 20000, 1.0)) - v
        if abs(x.std() - 1) > 0.06 or abs(x.mean()) > 0.06:
            fail("awgn of 20000 samples %r, deviation 1" % v, "noise of deviation %g mean %g" % (x.std(), x.mean()))
    d = np.array(K.random_data(40000))
    if abs(d.mean() - 0.5) > 0.03:
        fail("random_data(40000)", "mean %g" % d.mean())


def close(a, b):
    if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
        return a == b or (math.isnan(a) and math.isnan(b))
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


def db(x):
    return 10 * math.log10(x) if x > 0 else -math.inf


def arr(z):
    return repr(z.tolist()) if z.size <= 40 else "array of shape %r starting %r, largest magnitude at %r" % (z.shape, z[0, :3].tolist(), np.unravel_index(abs(z).argmax(), z.shape))


def c29_case():
    n = rng.choice([0, 1, 2, 3, 10, 100, 5000])
    s = [rng.choice([1.0, -1.0, 0.5, rng.gauss(0, 1), rng.gauss(0, 10)]) for _ in range(n)]
    case("energy %d %r" % (n, s[:20]))
    g = K.energy_detector(s)
    w = db(sum(x * x for x in s))
    if not close(g, w):
        fail("energy_detector(%r of length %d)" % (s[:50], len(s)), "%r, expected %r" % (g, w))
    r, c = rng.choice([1, 2, 3, 5, 9]), rng.choice([1, 2, 3, 4, 8])
    if rng.random() < 0.1:
        r, c = rng.choice([(1, 300), (3, 70), (70, 3), (66, 130), (2, 1100), (1100, 2), (257, 33)])
    q = np.random.default_rng(rng.randrange(1 << 32))
    z = (q.normal(size=(r, c)) + 1j * q.normal(size=(r, c))) * 10 ** q.uniform(-1, 1, size=(r, c))
    kind = rng.randrange(6)
    if kind == 0:
        z = z.real + 0j
    elif kind == 1:
        z = 1j * z.imag
    elif kind == 2:
        # one entry above all others, anywhere
        z[rng.choice([0, r - 1, rng.randrange(r)]), rng.choice([0, c - 1, rng.randrange(c)])] *= 1000
    elif kind == 3:
        z[1:] *= 1e-3
    case("array %d x %d %r" % (r, c, z[0, 0]))
    w = db(float((abs(z) ** 2).max()))
    g = K.max_cut_detector_sxf(z)
    if not close(g, w):
        fail("max_cut_detector_sxf(%s)" % arr(z), "%r, expected %r" % (g, w))
    w = db(float(((abs(z) ** 2).sum(axis=0) / abs(z[0]) ** 2).max()))
    g = K.dcs_detector_sxf(z)
    if not close(g, w):
        fail("dcs_detector_sxf(%s)" % arr(z), "%r, expected %r" % (g, w))


def c29_signal():
    n, npp = 4096, 64
    k = rng.choice([n + npp, n + npp + 5])
    kind = rng.randrange(3)
    f = rng.uniform(0.01, 0.4)
    s = [(rng.gauss(0, 1) if kind == 0 else math.cos(2 * math.pi * f * i) + 0.1 * rng.gauss(0, 1) if kind == 1 else rng.choice([-1.0, 1.0]) * math.cos(2 * math.pi * f * i)) for i in range(k)]
    case("signal of %d samples, kind %d" % (k, kind))
    sx = np.array(K.ssca(s, n, npp))
    m = abs(sx) ** 2
    g, w = K.max_cut_detector(s), db(float(m.max()))
    if not close(g, w):
        fail("max_cut_detector of %d samples %r.." % (k, s[:6]), "%r, expected %r" % (g, w))
    g, w = K.dcs_detector(s), db(float((m.sum(axis=0) / m[0]).max()))
    if not close(g, w):
        fail("dcs_detector of %d samples %r.." % (k, s[:6]), "%r, expected %r" % (g, w))


def c25_py():
    pass


try:
    if PID == "C27":
        api()
        R = Rust()
        c27_stat()
        names = ["tx_baseband_bpsk", "tx_bpsk", "rx_bpsk", "tx_qpsk", "rx_qpsk", "tx_cdma_bpsk", "tx_ofdm", "rx_ofdm", "tx_bfsk", "tx_fh_css",
                 "tx_csk", "tx_dcsk", "tx_fh_ofdm_dcsk", "chirp", "ssca", "ssca_mapped", "avg_energy"]
        while len(stat["fails"]) < 3:
            for nm in names:
                c27_case(R, nm)
            c27_noise()
            if time.time() - T0 > BUDGET:
                break
    elif PID == "C29":
        c29_signal()
        i = 0
        while len(stat["fails"]) < 3 and time.time() - T0 < BUDGET:
            c29_case()
            i += 1
            if i % 40 == 0:
                c29_signal()
except BaseException as e:
    import traceback
    fail("driver", "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-200:]))
finish()
