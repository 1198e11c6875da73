from .adaptors import *


def prove(cx):
    for a in ("chunks", "wchunks"):
        prove_adaptor(cx, a)
