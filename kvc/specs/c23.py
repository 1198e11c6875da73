from .common import *


def g(rid, i):
    return app("gauss", (num(rid), i), "R")


def prove(cx):
    def go(sfx, n):
        sg = var("sigma", "R")
        for zero in (False, True):
            sd = num(0, "R") if zero else sg
            for fn, cplx_ in (("awgn", False), ("awgn_complex", True)):
                ex, st = base(cx, lf(n) + ([] if zero else [lt(num(0, "R"), sg)]))
                x = cplx(st, n, "x") if cplx_ else reals(st, n, "x")

                def want():
                    def gen(i):
                        d = mul(sd, g(0, i))
                        v = x.at(i)
                        return C(add(v.xs[0], d), v.xs[1]) if cplx_ else add(v, d)
                    return Seq(n, gen=gen)
                lab = "complex noise" if cplx_ else "real noise"
                s, v = post(cx, ex, fn, [It(x), sd], st, (lambda: x) if zero else want,
                            (lab + ": deviation 0 changes nothing" if zero else lab + ": draw i of one generator is added to sample i (real part)") + sfx)
                if zero:
                    continue
                # a second channel in the same program draws from its own part of the generator
                outs = ex.run_fn(cx.fn(fn), [It(x), sd], s)
                for s2, w in outs:
                    i, j = var("i"), var("j")
                    with set_facts(s2.facts + (le(ZERO_I, i), le(ZERO_I, j)) + ((lt(i, n), lt(j, n)) if n is not None else ())):
                        a, b = w.rest().at(i), x.at(i)
                        d = sub(a.xs[0], b.xs[0]) if cplx_ else sub(a, b)
                        draws = atoms(d, lambda t: t.op == "app" and t.args[0] == "gauss")
                    ok = len(draws) == 1 and draws[0].args[1][0] is not num(0) and draws[0].args[1][1] is i
                    cx.obl(lab + ": a second channel uses other draws, one per sample" + sfx, fn, "lemma", s2.facts, TRUE if ok else FALSE)
    for sfx, n in ((" (finite)", var("n")), (" (endless)", None)):
        cx.guard("noise" + sfx, lambda: go(sfx, n))
