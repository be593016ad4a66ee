"""memory -> pixels"""
import numpy as np
import gw, raster, vout
from streams import *

RULE = ("VideoOutCore with a DRAM controller model (random command/data stalls, latency, refresh pauses) and random downstream "
        "stalls, clock ratios, FIFO depths and frame geometries; each delivered sample is compared with the raster of the "
        "programmed parameters and each active sample with the memory word at base+index (memory contents identify their address); "
        "a case is a distinct (geometry, base, memory behaviour) frame")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "length = active pixels x word size, plus less than a word; legal frame parameters",
          "the memory controller answers in order and does not wait for the reader (as LiteDRAM)"]
MIN_EVENTS = 100000
MUST_OBSERVE = ("frames", "underflow cycles", "memory words", "frames of more than 255 words", "frames of more than 4095 words", "frames of more than 65535 words", "frames of more than 2000000 words",
                "lines of more than 2047 pixels", "frames of more than 2047 lines", "frames across a power of two")


def jobs(tier, seed):
    reps = 2 if tier == "quick" else 40
    j = []
    for k in range(reps):
        for mode in ("rgb", "ycbcr422", "raw"):
            for mem in ("fast", "slow", "starved", "bursty"):
                for r in ("full", "half", "burst"):
                    j.append(dict(name="{}-{}-{}-{}".format(mode, mem, r, k), mode=mode, mem=mem, r=r, seed=seed + 19*k, n=40))
        # frames of real sizes
        for mode in ("rgb", "ycbcr422", "raw"):
            for big in range(3):
                j.append(dict(name="{}-big{}-{}".format(mode, big, k), mode=mode, mem="fast" if (k + big) % 2 else "slow", r="full", seed=seed + 19*k, n=40, big=big, cost=2))
            # very wide and very tall frames
            for i in range(3):
                j.append(dict(name="{}-slim{}-{}".format(mode, i, k), mode=mode, mem="fast" if (k + i) % 2 else "slow", r="full", seed=seed + 19*k + i, n=40, big=-1, cost=2))
        if k < 1 or tier != "quick" and k < 3:
            for mode in ("rgb", "ycbcr422", "raw"):
                j.append(dict(name="{}-hd-{}".format(mode, k), mode=mode, mem="fast", r="full", seed=seed + 19*k, n=40, big=3, cost=20))
    return j


BIG = [((40, 200), (10, 60)), ((200, 700), (20, 60)), ((600, 1300), (200, 240))]
MEM = {"fast": (256, 256, 2), "slow": (128, 160, 9), "starved": (60, 60, 20), "bursty": (256, 256, 6)}


def run(job, ctx):
    rng = npr(job)
    mode = job["mode"]
    cd = "sys" if rng.random() < .15 else "pix"
    depth = int(rng.choice([8, 16, 64, 512]))
    cb = vout.CoreBench(ctx, rng, mode, depth, cd, csr_width=int(rng.choice([8, 32])), aw=26 if job.get("big") == 3 else None)
    big = job.get("big")
    if big is None:
        p = raster.geometry(rng, 40, 10)
    elif big < 0:
        p = raster.slim(rng)
    elif big == 3:
        p = dict(raster.STANDARD[3])            # 1920x1080
    else:
        p = raster.geometry(rng, 40, 10)
        while True:
            h, v = (int(rng.integers(*x)) for x in BIG[big])
            if big < 2 or h*v > 1 << 16:
                break
        p = raster.resize(p, h, v)
    words = p["hres"]*p["vres"] if mode != "raw" else raster.size(p)
    wb = 1 << cb.shift
    base = int(rng.integers(0, (1 << cb.aw) - words))*wb + int(rng.integers(0, wb))
    if words > 1 and rng.random() < .5:
        # across an odd multiple of a power of two
        k = int(rng.integers(5, cb.aw))
        w0 = (2*int(rng.integers(0, 1 << (cb.aw - k - 1))) + 1 << k) - int(rng.integers(1, words))
        if 0 <= w0 <= (1 << cb.aw) - words:
            base = w0*wb + base % wb
            ctx.count("frames across a power of two")
    cb.memory(*MEM[job["mem"]])
    cb.backpressure(job["r"])
    # reset values must not start anything
    cb.b.ticks(int(rng.integers(5, 60)))
    cb.set(base=base, length=words*wb + int(rng.integers(0, wb)), **p)
    cb.b.ticks(int(rng.integers(5, 60)))
    a = cb.take()
    ctx.expect(not a[:, 0].any() and not a[:, 6].any(), "activity before enabling")
    cb.enable()
    total = raster.size(p)
    und = 0
    todo = 12 + job["n"]*total//(2*total + 200)
    if big is not None:
        todo = (12, 8, 6, 3, 8)[big]
    for k in range(todo):
        if job["mem"] == "bursty":
            cb.sim[cb.dram.hold] = int(rng.integers(0, 2))
            cb.sim.settle()
            cb.b.ticks(int(rng.integers(1, 120)), cd)
            cb.sim[cb.dram.hold] = 0
            cb.sim.settle()
        cb.b.ticks(total//2 + 50, cd)
        a = cb.take()
        und += int((a[:, 0] == 0).sum())
        c = cb.cmds(a)
        ctx.count("memory words", len(c))
        w0 = base >> cb.shift
        out = (c < w0) | (c >= w0 + words)
        ctx.expect(not out.any(), lambda: "the reader fetched word {:#x} outside [{:#x},{:#x})".format(int(c[out][0]), w0, w0 + words))
    ctx.count("underflow cycles", und)
    if mode == "raw":
        raw(job, ctx, cb, base, words)
    else:
        n = cb.check(job["name"])
        ctx.expect(n >= 1 or len(np.concatenate(cb.log)) > 0, "no output was produced")
    T = np.concatenate(cb.log)
    for lim in (255, 4095, 65535, 2000000):
        if words > lim:
            ctx.count("frames of more than {} words".format(lim), len(T)//total)
    if len(T) >= total:
        ctx.count("lines of more than 2047 pixels", p["hres"] > 2047)
        ctx.count("frames of more than 2047 lines", p["vres"] > 2047)
    ctx.expect(len(T) > 50, "hardly any output: {} samples".format(len(T)))
    if job["mem"] == "fast" and job["r"] == "full" and len(T) and mode != "raw":
        # a fast memory sustains one sample per cycle once started
        gaps = np.diff(T[:, 4])
        ctx.expect((gaps[-len(gaps)//2:] == 1).all(), "one sample per cycle not sustained with a fast memory")
    ctx.sample("{} {} base={:#x} depth={} -> {} samples".format(job["name"], p, base, depth, len(T)))
    ctx.sanitizers(cb.sim)


def raw(job, ctx, cb, base, words):
    """raw mode: every sample is the next memory word"""
    T = np.concatenate(cb.log)
    exp = np.resize(cb.word(base, words), len(T))
    bad = np.nonzero(T[:, 3] != exp)[0]
    ctx.ev(len(T))
    if len(bad):
        i = int(bad[0])
        ctx.fail("raw: sample {} (cycle {}) shows {}, expected word {:#x}".format(i, T[i, 4], cb.which(int(T[i, 3]), base), (base >> cb.shift) + i % words))
        return
    ctx.count("frames", len(T)//words)
    for k in range(len(T)//words):
        ctx.state(job["name"], job["seed"], k)
    ctx.expect(cb.sim[cb.dram.lost] == 0, "memory words arrived with no room for them")
