"""kvc: python3-vt -m kvc.run <id> <mir file> <out.json> [--deadline secs]"""
import importlib, json, sys, time
from . import mir as M
from .spec import Ctx2


def main(pid, mirfile, out=None, deadline=240.0):
    t0 = time.time()
    m = M.Mir(open(mirfile).read(), "/repo")
    cx = Ctx2(pid, m, t0 + deadline)
    mod = importlib.import_module("kvc.specs.%s" % pid.lower())
    cx.guard("specification", lambda: mod.prove(cx))
    r = cx.report()
    r["wall"] = time.time() - t0
    if out:
        json.dump(r, open(out, "w"), indent=1)
    return r


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    a = sys.argv[1:]
    dl = float(a[a.index("--deadline") + 1]) if "--deadline" in a else 240.0
    r = main(a[0], a[1], a[2] if len(a) > 2 and not a[2].startswith("-") else None, dl)
    v = "-v" in a
    for o in r["list"]:
        if v or o[3] != "discharged":
            print(*o)
    for o in r["refuted"]:
        print("REFUTED", o)
    for o in r["undecided"]:
        print("UNDECIDED", o)
    print(r["discharged"], "/", r["obligations"], "%.1fs" % r["wall"])
