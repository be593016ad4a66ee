"""shared by the colour-space / float stream checks"""
import numpy as np
import gw
from streams import *


def fields(ep, names):
    return [getattr(ep, n) for n in names]


def exhaustive(ctx, sim, dut, inn, outn, tokens, golden, real=None, tol=None, what=""):
    """tokens through the block back to back; every output against golden"""
    n = len(tokens)
    r = sim.run_stream(sim.mask("sys"), dut.sink, dut.source, tokens, [1], [1], n + 200,
                       in_fields=fields(dut.sink, inn), out_fields=fields(dut.source, outn))
    compare(ctx, r, tokens, golden, outn, what, real, tol)


def compare(ctx, r, tokens, golden, outn, what, real=None, tol=None):
    n = len(tokens)
    out = r["out"][:, :len(outn)]
    if len(r["accepted"]) != n or len(out) != n:
        ctx.fail("{}: offered {} pixels, {} accepted, {} delivered (cycle {})".format(
            what, n, len(r["accepted"]), len(out), r["cycles"]))
        n = min(n, len(out))
    g = np.stack([np.asarray(x, np.int64) for x in golden], 1)[:n]
    bad = np.nonzero((out[:n] != g).any(axis=1))[0]
    ctx.ev(n, "pixels compared")
    if len(bad):
        for i in bad[:3]:
            ctx.fail("{}: input #{} {} -> {} {}, expected {} ({} of {} differ)".format(
                what, i, tokens[i].tolist(), outn, out[i].tolist(), g[i].tolist(), len(bad), n))
    if real is not None:
        for k, nm in enumerate(outn):
            d = out[:n, k] - real[k][:n]
            lo, hi = tol[k]
            b = np.nonzero((d < lo) | (d > hi))[0]
            if len(b):
                i = b[0]
                ctx.fail("{}: {} of {} is {} which is {:.2f} LSB off the real-valued result".format(
                    what, nm, tokens[i].tolist(), out[i, k], d[i]))
    if r["stab"]:
        ctx.fail("{}: output changed while stalled, first at cycle {}".format(what, r["stab_cycle"]))
    if n:
        ctx.sample("{} {} -> {}".format(what, tokens[n//2].tolist(), out[n//2].tolist()))
