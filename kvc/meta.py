"""What each check claims: level, trusted base, bounded parts. Used by check.py and tools/mkmanifest.py."""
import os, re

TRUSTED = [
    "rustc's MIR (stable toolchain, mir-opt-level 0) is the meaning of the source",
    "kvc: MIR parser, symbolic executor, normaliser and obligation generator (/verif/kvc)",
    "z3 4.x / cvc5 1.1 answers (unsat)",
    "assumed contracts of std, itertools, num-complex and the other dependencies (listed one by one below as used)",
]
ASSUME = [
    "f64 is treated as the mathematical reals: rounding, NaN and overflow to infinity are not modelled (the bounded replay harness compares the compiled code with a reference within 1e-6)",
    "64-bit (usize, u64, i64) additions and multiplications do not overflow (their overflow assertions are assumed); narrower arithmetic, narrowing casts, unsigned subtractions, divisions, indexing, unwrap and assert! are checked",
    "iterator arguments are well-behaved: they yield their n elements (or are endless), then None, and have no side effects",
    "memory safety is the Rust compiler's; unsafe code in dependencies is trusted",
]
RULE = ("bounded replay of the same property on the compiled crate: random cases (messages, rates, sizes, signals; "
        "biased to small sizes, boundaries and constants found in the compiled code) compared with an independent "
        "reference; a case is non-trivial when its input is non-empty and is counted once per distinct input")


def I(level="proof", **kw):
    d = {"level": level, "trusted": TRUSTED, "assume": ASSUME, "rule": RULE, "bounded": "none beyond the numeric validation by replay", "proved": ""}
    d.update(kw)
    return d


INFO = {}
for _i in [*range(1, 31), 34, 35]:
    INFO["C%02d" % _i] = I()

_PY = ("; the functions registered with Python are also called through the compiled module (CPython 3.12 and NumPy, replay/pydrive.py) "
       "and compared with the compiled Rust functions and with references computed there")
INFO["C27"] = I(driver="py", rule=RULE + _PY)
INFO["C29"] = I(driver="py", rule=RULE + _PY)

KNOWN = "/verif/known-findings.txt"


def known_findings(pid):
    """open findings of a property: the text that identifies the failing input"""
    if not os.path.exists(KNOWN):
        return []
    r = []
    for l in open(KNOWN):
        m = re.match(r"finding: property=(\S+) (.*)", l.strip())
        if m and m.group(1) == pid:
            r.append(m.group(2))
    return r
