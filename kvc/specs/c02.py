from .adaptors import *


def prove(cx):
    for a in ("inflate", "take_every", "scale"):
        prove_adaptor(cx, a)
