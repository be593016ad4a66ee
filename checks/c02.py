"""YCbCr -> RGB"""
import numpy as np
import gw, golden
from csc_common import *

RULE = ("every 8-bit YCbCr triple streamed through the converter (shuffled so neighbours differ), plus random "
        "triples at other sample/coefficient widths and under random valid/ready schedules; a case is a distinct "
        "input triple at a width configuration, compared component by component with the fixed-point equations")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics"]
MIN_EVENTS = 1 << 24
WIDTHS = [(8, 10), (10, 10), (6, 8), (12, 12), (8, 7)]
TOL = [(-2.1, 1.2), (-4.2, 2.2), (-1.3, 1.2)]


def jobs(tier, seed):
    j = [dict(name="all-{:x}".format(i), kind="all", slice=i, seed=seed, cost=3) for i in range(16)]
    reps = 1 if tier == "quick" else 12
    for k in range(reps):
        for w, cw in WIDTHS:
            j.append(dict(name="w{}c{}-{}".format(w, cw, k), kind="rand", w=w, cw=cw, n=300000 if tier == "quick" else 4000000, seed=seed + 1000*k))
        for v in ("half", "sparse", "runs", "full"):
            for r in ("half", "burst", "alt", "full"):
                j.append(dict(name="sched-{}-{}-{}".format(v, r, k), kind="sched", v=v, r=r, n=20000, seed=seed + 1000*k))
    return j


def run(job, ctx):
    from litevideo.csc.ycbcr2rgb import YCbCr2RGB
    rng = npr(job)
    w, cw = job.get("w", 8), job.get("cw", 8)
    dut = ctx.build(YCbCr2RGB, w, w, cw)
    sim = ctx.build(gw.Sim, dut)
    inn, outn = ["y", "cb", "cr"], ["r", "g", "b"]
    if job["kind"] == "all":
        v = np.arange(1 << 20) | (job["slice"] << 20)
        rng.shuffle(v)
        tok = np.stack([v >> 16, (v >> 8) & 255, v & 255], 1)
        # rotate which component the slice is taken from, so components mix
        exhaustive(ctx, sim, dut, inn, outn, tok, golden.ycbcr2rgb(*tok.T), golden.ycbcr2rgb_real(*tok.T), TOL, "YCbCr2RGB")
        ctx.distinct(1 << 20)
    elif job["kind"] == "rand":
        tok = np.stack([corner_values(rng, job["n"], w) for _ in range(3)], 1)
        exhaustive(ctx, sim, dut, inn, outn, tok, golden.ycbcr2rgb(*tok.T, w=w, cw=cw), what="YCbCr2RGB w={} cw={}".format(w, cw))
        ctx.distinct(len(np.unique(tok[:, 0] << 40 | tok[:, 1] << 20 | tok[:, 2])))
    else:
        tok = np.stack([corner_values(rng, job["n"], w) for _ in range(3)], 1)
        r = sim.run_stream(1, dut.sink, dut.source, tok, pattern(job["v"], rng), pattern(job["r"], rng, 3989), job["n"]*60,
                           in_fields=fields(dut.sink, inn), out_fields=fields(dut.source, outn), seed=job["seed"])
        compare(ctx, r, tok, golden.ycbcr2rgb(*tok.T), outn, "YCbCr2RGB valid={} ready={}".format(job["v"], job["r"]))
    ctx.sanitizers(sim)
