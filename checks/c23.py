"""frame parameters change between frames only"""
import numpy as np
import gw, raster, vout
from c19 import place
from streams import *

RULE = ("VideoOutCore running continuously while software rewrites frame base (page flipping) and timing registers at random "
        "instants over an 8- or 32-bit CSR bus, with random clock ratios, metastability injection, memory and downstream stalls; "
        "every frame must be exactly the raster and the memory of one parameter set that was in effect, sets must be used in order, "
        "and a set must reach the screen within a bounded number of frames; a case is a distinct (parameter set, frame)")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics",
          "every intermediate register combination software creates while enabled is legal",
          "the number of active pixels and the length do not change while enabled"]
MIN_EVENTS = 100000
MUST_OBSERVE = ("frames", "page flips", "timing changes", "half-written registers", "metastability injections")


def jobs(tier, seed):
    reps = 3 if tier == "quick" else 60
    j = []
    for k in range(reps):
        for mode in ("rgb", "ycbcr422"):
            for kind in ("flip", "timing", "both"):
                for r in ("full", "half"):
                    for mem in ("fast", "slow"):
                        j.append(dict(name="{}-{}-{}-{}-{}".format(mode, kind, r, mem, k), mode=mode, kind=kind, r=r, mem=mem, seed=seed + 23*k))
                if kind != "flip":
                    j.append(dict(name="{}-{}-carry-{}".format(mode, kind, k), mode=mode, kind=kind, r="full", mem="fast", seed=seed + 23*k, carry=1, cost=2))
                j.append(dict(name="{}-{}-slim-{}".format(mode, kind, k), mode=mode, kind=kind, r="full", mem="fast", seed=seed + 23*k, slim=1, cost=4))
    return j


MEM = {"fast": (256, 256, 2), "slow": (128, 160, 9)}


def moves(rng, p):
    """single register changes from p that keep it legal, not touching hres*vres"""
    order = [n for n in raster.NAMES if n not in ("hres", "vres")]
    for _ in range(60):
        n = str(rng.choice(order))
        q = dict(p)
        q[n] = max(0, p[n] + int(rng.integers(-9, 10)))
        if q != p and raster.valid(q):
            return n, q[n]
    return None


def run(job, ctx):
    rng = npr(job)
    mode = job["mode"]
    depth = int(rng.choice([8, 16, 64]))
    cb = vout.CoreBench(ctx, rng, mode, depth, "pix", csr_width=int(rng.choice([8, 8, 32])))
    p = raster.slim(rng, 20000) if job.get("slim") else raster.geometry(rng, 30, 8)
    if job.get("carry"):
        # changes by a few touch both bytes of a register
        x, y = 256*int(rng.choice([1, 1, 2, 4])) - int(rng.integers(0, 12)), int(rng.integers(1, 4))
        p = raster.resize(raster.geometry(rng, 8, 4), *((x, y) if rng.random() < .7 else (y, x)))
    words = p["hres"]*p["vres"]
    wb = 1 << cb.shift
    newbase = lambda: place(rng, cb.aw, words)*wb
    cb.memory(*MEM[job["mem"]])
    cb.backpressure(job["r"])
    cb.set(base=newbase(), length=words*wb, **p)
    cb.enable()

    def rest():
        # half of a register is written for a while
        if rng.random() < .5:
            cb.b.ticks(int(rng.integers(1, 2*raster.size(cb.params))), "pix")
            ctx.count("half-written registers")
    for k in range(30 if not job.get("slim") else 12):
        t = raster.size(cb.params)
        cb.b.ticks(int(rng.integers(1, t*int(rng.choice([1, 3, 12])))), "pix")
        if job["kind"] != "timing" and rng.random() < .7:
            for _ in range(int(rng.choice([1, 1, 1, 2, 3]))):
                cb.set(rest if rng.random() < .2 else None, base=newbase())
                ctx.count("page flips")
        if job["kind"] != "flip" and rng.random() < .7:
            for _ in range(int(rng.choice([1, 1, 2, 4]))):
                m = moves(rng, cb.params)
                if m:
                    cb.set(rest if rng.random() < (.8 if job.get("carry") else .4) else None, **{m[0]: m[1]})
                    ctx.count("timing changes")
        cb.take()
        if len(ctx.violations):
            break
    # the last set programmed must come up
    cb.b.ticks(raster.size(cb.params)*14*(1 if job["r"] == "full" and job["mem"] == "fast" else 5), "pix")
    cb.take()
    n = cb.check(job["name"])
    if not ctx.violations:
        ctx.expect(cb.cands[cb.used[-1]][0] == cb.params, "the last parameters programmed never came up: showing {} instead of {}".format(
            cb.cands[cb.used[-1]][0], cb.params))
        ctx.count("distinct sets shown", len(set(cb.used)))
        ctx.sample("{}: {} frames, {} parameter sets, {} shown".format(job["name"], n, len(cb.cands), len(set(cb.used))))
    ctx.sanitizers(cb.sim)
