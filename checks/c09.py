"""half-precision addition"""
import numpy as np
import golden, c08

RULE = c08.RULE.replace("product", "sum")
ASSUME = c08.ASSUME
MIN_EVENTS = c08.MIN_EVENTS
jobs = c08.jobs


def block():
    from litevideo.float_arithmetic.floatadd import FloatAdd
    return FloatAdd()


def gold(a, b):
    s = golden.f16_to_int(a) + golden.f16_to_int(b)
    ok = s < (65536 << 24)
    return golden.int_to_f16(np.where(ok, s, 0)), ok


def run(job, ctx):
    c08.run(job, ctx, block, gold, "v=fx(a)+fx(b);")
