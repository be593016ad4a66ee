"""8-bit <-> half float pixels"""
import numpy as np
import gw, golden
from csc_common import *

RULE = ("every 8-bit value on every channel (with independent values on the other channels) through RGB2RGB16f and the "
        "look-up variant, every half float of [0,1] on every channel through RGB16f2RGB, and the composed round trip, "
        "at full speed and under random valid/ready schedules; a case is a distinct (block, channel, value)")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics"]
MIN_EVENTS = 50000


def jobs(tier, seed):
    reps = 2 if tier == "quick" else 60
    return [dict(name="{}-{}".format(b, k), block=b, seed=seed + 5*k) for k in range(reps) for b in ("to", "from", "lut", "chain")]


def run(job, ctx):
    from migen import Module
    from litevideo.csc.rgb2rgb16f import RGB2RGB16f, PIX2PIXFLUT
    from litevideo.csc.rgb16f2rgb import RGB16f2RGB
    rng = npr(job)
    n3, f3 = ["r", "g", "b"], ["rf", "gf", "bf"]
    b = job["block"]
    if b == "lut":
        dut = ctx.build(PIX2PIXFLUT, 8, 16)
        sim = ctx.build(gw.Sim, dut)
        v = np.concatenate([rng.permutation(256) for _ in range(40)])
        stim = np.stack([v, np.ones_like(v)], 1)
        out = sim.run_trace(1, [dut.sink.pix, dut.ce], stim, [dut.source.pixf])[:, 0]
        lat = dut.latency
        bad = np.nonzero(out[lat:] != golden.pix_to_f16(v[:-lat]))[0]
        ctx.ev(len(v) - lat, "pixels compared")
        if len(bad):
            ctx.fail("look-up conversion of {} gives {:#x}, expected {:#x}".format(
                v[bad[0]], out[lat + bad[0]], int(golden.pix_to_f16(v[bad[0]]))))
        for x in range(256):
            ctx.state("lut", x)
        # clock enable freezes the output
        sim[dut.ce] = 0
        last = sim[dut.source.pixf]
        for x in range(20):
            sim[dut.sink.pix] = int(rng.integers(256))
            sim.settle()
            sim.tick("sys")
            ctx.expect(sim[dut.source.pixf] == last, "look-up output moves while its clock enable is low")
        return
    if b == "to":
        dut = ctx.build(RGB2RGB16f)
        inn, outn = n3, f3
        base = np.arange(256)
        gold = golden.pix_to_f16
    elif b == "from":
        dut = ctx.build(RGB16f2RGB)
        inn, outn = f3, n3
        base = np.arange(0x3c01)
        gold = golden.f16_to_pix
    else:
        class Chain(Module):
            def __init__(self):
                self.submodules.a = RGB2RGB16f()
                self.submodules.b = RGB16f2RGB()
                self.comb += self.a.source.connect(self.b.sink)
                self.sink, self.source = self.a.sink, self.b.source
        dut = ctx.build(Chain)
        inn, outn = n3, n3
        base = np.arange(256)
        gold = lambda x: x
    sim = ctx.build(gw.Sim, dut)
    for vk, rk in [("full", "full"), ("half", "full"), ("full", "half"), ("runs", "burst"), ("sparse", "alt"), ("burst", "runs")]:
        reps = max(1, 4096//len(base))
        tok = np.stack([np.concatenate([rng.permutation(base) for _ in range(reps)]) for _ in range(3)], 1)
        vp, rp = pattern(vk, rng), pattern(rk, rng, 3989)
        r = sim.run_stream(1, dut.sink, dut.source, tok, vp, rp, int(len(tok)*3/min(vp.mean(), rp.mean()) + 3000),
                           in_fields=fields(dut.sink, inn), out_fields=fields(dut.source, outn),
                           seed=int(rng.integers(1, 1 << 30)), drain=int(40/rp.mean()) + 60)
        compare(ctx, r, tok, [gold(c) for c in tok.T], outn, "{} valid={} ready={}".format(b, vk, rk))
    for ch in range(3):
        for x in base:
            ctx.state(b, ch, int(x))
    ctx.sanitizers(sim)
