from .adaptors import *


def prove(cx):
    for a in ("convolve", "nonvolve"):
        prove_adaptor(cx, a)
