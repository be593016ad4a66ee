"""resolution detection"""
import numpy as np
from migen import *
import gw, raster
from streams import *

RULE = ("video of random and standard geometries, mode switches and signal losses through the resolution detector; after a whole frame the "
        "registers must read the active width and height and keep them while the mode lasts, and read zero without signal; a case is a "
        "distinct mode history")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "width and height below two to the number of bits of the registers"]
MIN_EVENTS = 200000
MUST_OBSERVE = ("modes measured", "mode switches", "signal losses", "standard modes", "stable samples")


def jobs(tier, seed):
    n = 16 if tier == "quick" else 240
    j = [dict(name="small-{}".format(i), kind="small", seed=seed + i) for i in range(n)]
    j += [dict(name="std-{}".format(i), kind="std", i=i, seed=seed, cost=4) for i in range(len(raster.STANDARD))]
    j += [dict(name="extreme-{}".format(i), kind="ext", i=i, seed=seed + i, cost=2) for i in range(2 if tier == "quick" else 8)]
    return j


def run(job, ctx):
    from litevideo.input.analysis import ResolutionDetection
    rng = npr(job)
    nbits = int(rng.choice([11, 11, 12]))
    dut = ctx.build(ResolutionDetection, nbits) if nbits > 11 else ctx.build(ResolutionDetection)
    sim = ctx.build(gw.Sim, dut, clocks=("pix", "sys"))
    outs = [dut._hres.status, dut._vres.status]
    ins = [dut.valid_i, dut.de, dut.vsync]
    segs = []
    if job["kind"] == "std":
        segs = [(raster.STANDARD[job["i"]], 3)]
        ctx.count("standard modes")
    elif job["kind"] == "ext":
        m = (1 << nbits) - 1
        segs = [(dict(zip(raster.NAMES, (m, m + 2, m + 3, m + 5, 3, 4, 5, 6))), 3), (dict(zip(raster.NAMES, (3, 4, 5, 6, m, m + 1, m + 2, m + 3))), 3),
                (dict(zip(raster.NAMES, (1, 2, 3, 4, 1, 1, 2, 3))), 6)]
    else:
        for k in range(40):
            p = raster.geometry(rng, int(rng.choice([4, 60, 300])), int(rng.choice([2, 20])))
            if rng.random() < .3:
                segs.append((None, int(rng.integers(1, 400))))
            segs.append((p, int(rng.integers(2, 6))))
    m = sim.mask("pix") | sim.mask("sys")
    for k, (p, nf) in enumerate(segs):
        if p is None:
            st = np.stack([np.zeros(nf, np.int64), rng.integers(0, 2, nf), rng.integers(0, 2, nf)], 1)
            out = sim.run_trace(m, ins, st, outs)
            ctx.expect(not out[8:].any(), "{}: registers read {} without signal".format(job["name"], out[-1].tolist()))
            ctx.count("signal losses")
            continue
        if k:
            ctx.count("mode switches")
        f = raster.frame(p)
        st = np.concatenate([f]*nf)
        # may start anywhere in the frame, or lose some samples of the first one
        s0 = int(rng.integers(0, len(f)))
        st = st[s0:]
        out = sim.run_trace(m, ins, np.stack([np.ones(len(st), np.int64), st[:, 2], st[:, 1]], 1), outs)
        # after the second vsync that starts within the signal
        r = np.nonzero((st[1:, 1] == 1) & (st[:-1, 1] == 0))[0]
        if len(r) < 2:
            continue
        t = r[1] + 8
        g = out[t:]
        if not len(g):
            continue
        exp = [p["hres"], p["vres"]]
        bad = (g != exp).any(axis=1)
        if bad.any():
            ctx.fail("{}: registers read {} for a {}x{} mode".format(job["name"], g[np.nonzero(bad)[0][0]].tolist(), *exp))
            return
        ctx.count("modes measured")
        ctx.count("stable samples", len(g))
        ctx.ev(len(st))
        ctx.state(tuple(p.values()), k, job["name"])
    ctx.sample("{}: {} segments".format(job["name"], len(segs)))
    ctx.sanitizers(sim)
