"""Steim frames with constant nibbles and sub-codes and symbolic data bits, and their meaning
according to SEED 2.4 Appendix B (Steim1 and Steim2): shared by C08 to C12."""
from .common import *
from ..terms import shl, shr, wrap, bitop

# nibble[, sub-code] -> (number of differences, bits of each)
FORM1 = {1: (4, 8), 2: (2, 16), 3: (1, 32)}
FORM2 = {1: (4, 8), (2, 1): (1, 30), (2, 2): (2, 15), (2, 3): (3, 10), (3, 0): (5, 6), (3, 1): (6, 5), (3, 2): (7, 4)}
FORM = {10: FORM1, 11: FORM2}


def field(word, pos, nbits):
    """signed field of a 32-bit word: nbits bits whose lowest bit is bit pos"""
    if isinstance(word, int):
        v = (word >> pos) & ((1 << nbits) - 1)
        return v - (1 << nbits) if v >> (nbits - 1) else v
    up = wrap("int32", shl(word, 32 - nbits - pos))
    return shr(up, 32 - nbits)


def fields(e, code, word):
    """differences of a data word, in order"""
    n, b = FORM[e][code]
    return [field(word, (n - 1 - i) * b, b) for i in range(n)]


def frame(e, codes, p, first, x0=None, xn=None):
    """one frame; codes of its 16 words (0 for no data); all data bits symbolic
    -> bytes, differences in order, value of word 1"""
    nib = 0
    ws, diffs = [], []
    for i in range(1, 16):
        c = codes[i]
        n = c[0] if isinstance(c, tuple) else c
        nib |= n << (30 - 2 * i)
        if first and i == 1 and x0 is not None:
            w = x0
            ws.append(ct.fld("i", ">", w))
            continue
        if first and i == 2 and xn is not None:
            ws.append(ct.fld("i", ">", xn))
            continue
        if isinstance(c, tuple):
            w = add(c[1] << 30, sym(f"{p}w{i}", "int", 0, 2**30 - 1))
        else:
            w = sym(f"{p}w{i}", "int", 0, 2**32 - 1)
        ws.append(ct.fld("I", ">", w))
        if c and c in FORM[e]:
            diffs += fields(e, c, w)
    return ct.cat(ct.fld("I", ">", nib), *ws), diffs


def rotations(e):
    """frames in which every word form occurs at several word positions"""
    fs = list(FORM[e])
    out = []
    for k in range(len(fs)):
        out.append([0, 0, 0] + [fs[(k + i) % len(fs)] for i in range(13)])
    return out


def capacity(e, codes):
    return sum(FORM[e][c][0] for c in codes if c in FORM[e])
