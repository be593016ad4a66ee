"""RGB -> YCbCr (-> 4:2:2 -> 4:4:4) -> RGB round trip on the composed gateware"""
import numpy as np
from migen import *
import gw, golden
from csc_common import *

RULE = ("every 8-bit RGB triple through the chained converters (RGB->YCbCr->RGB), and random runs of equal-colour "
        "pixel pairs through the chain with 4:2:2 resampling under random valid/ready schedules; non-trivial cases are "
        "distinct colours whose intermediate components are not clamped")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics"]
MIN_EVENTS = 1 << 20
LO, HI = -3, 1


def jobs(tier, seed):
    j = [dict(name="rt-{:x}".format(i), kind="rt", slice=i, seed=seed, cost=3) for i in range(16)]
    reps = 1 if tier == "quick" else 16
    for k in range(reps):
        for v in ("full", "half", "sparse", "runs", "burst"):
            for r in ("full", "half", "burst", "alt"):
                j.append(dict(name="422-{}-{}-{}".format(v, r, k), kind="422", v=v, r=r, n=16000, seed=seed + 77*k))
    return j


def chain(resample):
    from litevideo.csc.rgb2ycbcr import RGB2YCbCr
    from litevideo.csc.ycbcr2rgb import YCbCr2RGB
    from litevideo.csc.ycbcr444to422 import YCbCr444to422
    from litevideo.csc.ycbcr422to444 import YCbCr422to444

    class Chain(Module):
        def __init__(self):
            st = [RGB2YCbCr()] + ([YCbCr444to422(), YCbCr422to444()] if resample else []) + [YCbCr2RGB()]
            self.submodules += st
            for a, b in zip(st[:-1], st[1:]):
                self.comb += a.source.connect(b.sink)
            self.sink, self.source = st[0].sink, st[-1].source
    return Chain()


def run(job, ctx):
    rng = npr(job)
    dut = ctx.build(chain, job["kind"] == "422")
    sim = ctx.build(gw.Sim, dut)
    n3 = ["r", "g", "b"]
    if job["kind"] == "rt":
        v = np.arange(1 << 20) | (job["slice"] << 20)
        rng.shuffle(v)
        tok = np.stack([v >> 16, (v >> 8) & 255, v & 255], 1)
        vp, rp, mc = [1], [1], len(tok) + 400
    else:
        pairs = np.stack([corner_values(rng, job["n"]//2, 8) for _ in range(3)], 1)
        tok = np.repeat(pairs, 2, axis=0)
        vp, rp, mc = pattern(job["v"], rng), pattern(job["r"], rng, 3989), job["n"]*60
    r = sim.run_stream(1, dut.sink, dut.source, tok, vp, rp, mc, in_fields=fields(dut.sink, n3),
                       out_fields=fields(dut.source, n3), seed=job["seed"])
    out = r["out"][:, :3]
    ctx.expect(len(out) == len(tok), "{} pixels in, {} out".format(len(tok), len(out)))
    n = min(len(out), len(tok))
    y, cb, cr = golden.rgb2ycbcr_real(*tok.T)
    # un-clamped with a margin of the conversion error
    ok = ((y < 253) & (y > 3) & (cb > 3) & (cb < 253) & (cr > 3) & (cr < 253))[:n]
    d = (out[:n] - tok[:n])
    bad = np.nonzero(((d < LO) | (d > HI)).any(axis=1) & ok)[0]
    for i in bad[:3]:
        ctx.fail("{} comes back as {} ({} such colours)".format(tok[i].tolist(), out[i].tolist(), len(bad)))
    # neutral colours stay neutral
    grey = np.nonzero((tok[:n, 0] == tok[:n, 1]) & (tok[:n, 1] == tok[:n, 2]) & (tok[:n, 0] < 240))[0]
    for i in grey:
        if not (out[i] == tok[i]).all():
            ctx.fail("grey {} comes back as {}".format(tok[i].tolist(), out[i].tolist()))
            break
    ctx.ev(n, "pixels compared")
    ctx.count("grey pixels", len(grey))
    if job["kind"] == "rt":
        ctx.distinct(int(ok.sum()))
    else:
        ctx.distinct(len(np.unique(tok[:n][ok], axis=0)))
    ctx.sample("{} -> {}".format(tok[n//3].tolist(), out[n//3].tolist()))
    ctx.sanitizers(sim)
