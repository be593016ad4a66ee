"""test patterns"""
import numpy as np
from migen import *
import gw
from streams import *

RULE = ("pattern generators with random widths, start instants and back-pressure; the pixels accepted one after the other must be the lines of the "
        "pattern, a pending pixel must not change, and the generator never pauses by itself; a case is a distinct (pattern, width, column, back-pressure)")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "the parameters stay valid and constant once given; widths are multiples of 8 (bars) or even (dots)"]
MIN_EVENTS = 300000
MUST_OBSERVE = ("pixels", "stalls", "lines", "bars", "lines4", "dots", "full speed", "wide lines")
BARS = [0xffffff, 0xffff00, 0x00ffff, 0x00ff00, 0xff00ff, 0xff0000, 0x0000ff, 0x000000]


def jobs(tier, seed):
    n = 12 if tier == "quick" else 120
    return [dict(name="{}-{}".format(k, i), kind=k, seed=seed + i, pat=PATTERNS[i % len(PATTERNS)]) for i in range(n) for k in ("bars", "lines4", "dots")]


def run(job, ctx):
    from litevideo.output.pattern import ColorBarsPattern, VerticalLinesPattern, DotsPattern
    rng = npr(job)
    k = job["kind"]
    cls = dict(bars=ColorBarsPattern, lines4=VerticalLinesPattern, dots=DotsPattern)[k]
    for rep in range(4):
        dut = ctx.build(cls)
        sim = ctx.build(gw.Sim, dut, clocks=("sys",))
        hres = int(rng.choice([8, 16, 24, 40, 64, 640, 800, 1280, 1920, 4088]))
        if k != "bars":
            hres = int(rng.choice([2, 4, 6, 10, 12, hres, hres]))
        if hres >= 640:
            ctx.count("wide lines")
        N = 60000 if job["pat"] == "sparse" else 25000
        start = int(rng.integers(0, 20))
        p = pattern(job["pat"], rng)
        rdy = np.tile(p, N//len(p) + 1)[:N].astype(np.int64)
        # before the start anything goes on the ready line
        x = rng.random()
        if x < .3:
            rdy[:start + int(rng.integers(0, 4))] = 0
        elif x < .6:
            rdy[:start] = 1
        val = (np.arange(N) >= start).astype(np.int64)
        st = np.stack([val, np.where(val, hres, rng.integers(0, 4096, N)), rdy], 1)
        s = dut.source
        out = sim.run_trace(sim.mask("sys"), [dut.sink.valid, dut.sink.hres, s.ready], st, [s.valid, s.r, s.g, s.b])
        v = out[:, 0]
        rgb = (out[:, 1] << 16) | (out[:, 2] << 8) | out[:, 3]
        name = "{} ({} pixels wide, {})".format(job["name"], hres, job["pat"])
        if v[:start].any():
            ctx.fail("{}: pixels before the parameters".format(name))
            return
        f = np.nonzero(v)[0]
        if not len(f) or f[0] > start + 8 or not v[f[0]:].all():
            ctx.fail("{}: the generator stops".format(name))
            return
        pend = np.nonzero((v[:-1] == 1) & (rdy[:-1] == 0) & (rgb[1:] != rgb[:-1]))[0]
        if len(pend):
            ctx.fail("{}: the pending pixel changes from {:06x} to {:06x} (cycle {})".format(name, rgb[pend[0]], rgb[pend[0] + 1], pend[0]))
            return
        px = rgb[(v == 1) & (rdy == 1)]
        n = len(px)
        xx, yy = np.arange(n) % hres, np.arange(n)//hres
        if k == "bars":
            exp = np.array(BARS)[xx//(hres//8)]
            ok = (px == exp)
        else:
            # black and white alternate; which one comes first is free
            base = int(px[0] != 0) if n else 0
            par = (np.arange(n) if k == "lines4" else xx + yy) + base
            exp = np.where(par & 1, 0xffffff, 0)
            ok = px == exp
        if not ok.all():
            i = int(np.nonzero(~ok)[0][0])
            ctx.fail("{}: pixel {} of line {} is {:06x}, must be {:06x}".format(name, xx[i], yy[i], px[i], exp[i]))
            return
        ctx.ev(n)
        ctx.count("pixels", n)
        ctx.count("lines", n//hres)
        ctx.count("stalls", int(((v == 1) & (rdy == 0)).sum()))
        ctx.count(k)
        if job["pat"] == "full":
            ctx.count("full speed")
        ctx.states_bulk((k, hres, int(a), job["pat"]) for a in np.unique(xx))
        ctx.sanitizers(sim)
    ctx.sample("{}: last run {} pixels of {}-pixel lines".format(job["name"], n, hres))
