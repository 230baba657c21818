"""C09: the Steim1 decoder is interpreted over frames with every word form at every rotation
(constant nibbles and sub-codes, symbolic data bits, one and two frames, biases) and each
sample compared with previous sample plus the difference the format defines for that field;
the encoder is interpreted over samples whose differences are symbolic within (and across)
the size classes of the format, in every order of sizes in and across words, and its bytes
read back by the format and compared with the differences (32-bit two's complement)."""
from .steimdec import decoders
from .steimenc import encoders


def check(ctx):
    ctx.I.unroll = 220
    decoders(ctx, "C09", 10)
    encoders(ctx, "C09", 10)
    ctx.floor("C09.encode", 500)
