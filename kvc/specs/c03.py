from .adaptors import *


def prove(cx):
    for a in ("integrate", "integrate_and_dump", "nintegrate", "nintegrate_and_dump"):
        prove_adaptor(cx, a)
