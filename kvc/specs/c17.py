from .common import *


def prove(cx):
    adaptors(cx, "LogisticMap", "Chebyshev")
    mu, x = var("mu", "R"), var("x", "R")
    one, zero = num(1, "R"), num(0, "R")
    ex, st = base(cx)

    def maps():
        absx = absr(x)
        want = {"logistic_map": ([mu, x], A.logistic_step(mu, x)), "chebyshev": ([x], A.chebyshev_step(x)),
                "tent_map": ([mu, x], sub(mul(num(2, "R"), mu, sub(one, absx)), one)),
                "bernoulli_map": ([mu, x], add(mul(mu, x), ite(lt(x, zero), one, neg(one))))}
        for nm, (args, w) in want.items():
            f = next((g for k, g in cx.mir.fns.items() if k.split("::")[-1] == nm and "chaos" in k), None)
            if f is None:
                raise Unsupported("%s is not in the compiled crate (lost anchor)" % nm)
            post(cx, ex, f, args, st, w, "the %s" % nm.replace("_", " "))
            # invariant interval
            lohi = {"logistic_map": (zero, one, le(zero, mu), le(mu, num(4, "R"))), "chebyshev": (neg(one), one),
                    "tent_map": (neg(one), one, le(zero, mu), le(mu, one)),
                    "bernoulli_map": (neg(one), one, le(zero, mu), le(mu, num(2, "R")))}[nm]
            s0 = St({}, ()).assume(le(lohi[0], x), le(x, lohi[1]), *lohi[2:])
            for s, v in cx.call(ex, f, args, s0, nm):
                cx.obl("the %s keeps its interval: lower bound" % nm.replace("_", " "), f.name, "lemma", s.facts, le(lohi[0], v))
                cx.obl("the %s keeps its interval: upper bound" % nm.replace("_", " "), f.name, "lemma", s.facts, le(v, lohi[1]))
    cx.guard("maps", maps)

    def reject():
        for ty, lo, args in (("LogisticMap", zero, [mu, x]), ("Chebyshev", neg(one), [x])):
            f = A.method(cx, ty, "new")
            for nm, fact in (("below", lt(x, lo)), ("above", lt(one, x))):
                s0 = St({}, ()).assume(fact)
                saved = len(ex.panics)
                outs = ex.run_fn(f, args, s0)
                ps = cx.take_panics(ex, saved, ty, record=False)
                # every outcome is a panic
                bad = [s for s, v in outs if prove_feasible(s)]
                with set_facts(s0.facts):
                    g = bor(*[p.cond for p in ps]) if ps else FALSE
                cx.obl("%s rejects a start %s its interval" % (ty, nm), f.name, "post", s0.facts, g if bad else TRUE)
    cx.guard("rejected starts", reject)


def prove_feasible(s):
    with set_facts(s.facts):
        return not (FALSE in s.facts or entails(FALSE))
