from .common import *

R_ = lambda x: num(Fraction(x), "R")
ALPHA, BETA = R_("0.132"), R_("0.00932")


def step(z, ph, fq):
    """derotate by the phase estimate, then move frequency and phase by the product of the two arms"""
    c, s = cos(ph), sin(ph)
    re = add(mul(z.xs[0], c), mul(z.xs[1], s))
    im = sub(mul(z.xs[1], c), mul(z.xs[0], s))
    e = mul(re, im)
    fq2 = add(fq, mul(BETA, e))
    return C(re, im), add(ph, mul(ALPHA, e), fq2), fq2


def prove(cx):
    new, upd = A.method(cx, "CostasLoop", "new"), A.method(cx, "CostasLoop", "update")
    zero = R_(0)

    def first():
        """the first outputs of a new loop, whatever it stores"""
        ex, st = base(cx)
        for s, v in cx.call(ex, new, [], st, "new loop", contract="a loop with phase and frequency zero"):
            s = s.clone()
            ref = ex.new_cell(v, s)
            ph = fq = zero
            fronts = [s]
            for k in range(3):
                z = C(var("re%d" % k, "R"), var("im%d" % k, "R"))
                want, ph, fq = step(z, ph, fq)
                nxt = []
                for s1 in fronts:
                    for s2, w in cx.call(ex, upd, [ref, z], s1, "update"):
                        cx.equal("output %d of a new loop" % k, upd.name, s2.facts, w, want)
                        nxt.append(s2)
                fronts = nxt
    cx.guard("first outputs", first)

    def inductive():
        """every later one: the stored phase and frequency estimates follow the recurrence"""
        ph, fq = var("phase", "R"), var("freq", "R")
        z = C(var("re", "R"), var("im", "R"))
        ex, st = base(cx)
        why = "no two fields hold the phase and the frequency estimate"
        for s, v in cx.call(ex, new, [], st, "new loop"):
            if not isinstance(v, Struct):
                raise Unsupported(why)
            zs = [k for k, x in enumerate(v.xs) if x is zero]
            best = None
            for p in zs:
                for q in zs:
                    if p == q:
                        continue
                    with cx.trial() as t:
                        s1 = s.clone()
                        xs = list(v.xs)
                        xs[p], xs[q] = ph, fq
                        ref = ex.new_cell(Struct(v.name, tuple(xs)), s1)
                        want, ph2, fq2 = step(z, ph, fq)
                        ys = list(xs)
                        ys[p], ys[q] = ph2, fq2
                        for s2, w in cx.call(ex, upd, [ref, z], s1, "update", contract="derotates the sample by the phase estimate; second-order update of the estimates"):
                            cx.equal("output with any estimates", upd.name, s2.facts, w, want)
                            with set_facts(s2.facts):
                                got = ex.get(ref, s2)
                            for k in range(len(xs)):
                                cx.equal("field %d after the update" % k, upd.name, s2.facts, got.xs[k], ys[k], kind="invariant")
                            n2 = lambda c: add(mul(c.xs[0], c.xs[0]), mul(c.xs[1], c.xs[1]))
                            cx.obl("the output has the magnitude of the sample", upd.name, "lemma", s2.facts, P.pyth(eq(n2(w), n2(z))))
                    if t.ok:
                        t.keep()
                        return
        raise Unsupported(why)
    cx.guard("inductive step", inductive)
