"""4:4:4 -> 4:2:2 chroma pairing"""
import numpy as np
import gw
from csc_common import *

RULE = ("random/corner/slowly varying pixel streams through YCbCr444to422 under every combination of valid and ready "
        "schedules with idle prologues, and exhaustively every (c0,c1) chroma pair; expected: even pixel carries "
        "floor((Cb0+Cb1)/2), odd pixel floor((Cr0+Cr1)/2), luma and packet markers untouched; a case is a distinct pixel pair")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "streams hold whole pairs (4:2:2 has no odd lines)"]
MIN_EVENTS = 100000


def jobs(tier, seed):
    j = [dict(name="pairs-{}".format(k), kind="pairs", k=k, seed=seed) for k in range(4)]
    reps = 1 if tier == "quick" else 20
    for k in range(reps):
        for v in PATTERNS:
            j.append(dict(name="sched-{}-{}".format(v, k), kind="sched", v=v, n=6000, seed=seed + 13*k))
        for w in (6, 10, 12):
            j.append(dict(name="w{}-{}".format(w, k), kind="w", w=w, n=60000, seed=seed + 13*k))
    return j


def expected(tok):
    y, cb, cr = tok[:, 0], tok[:, 1], tok[:, 2]
    e = np.empty((len(tok), 2), np.int64)
    e[:, 0] = y
    e[0::2, 1] = (cb[0::2] + cb[1::2]) >> 1
    e[1::2, 1] = (cr[0::2] + cr[1::2]) >> 1
    return e


def run(job, ctx):
    from litevideo.csc.ycbcr444to422 import YCbCr444to422
    rng = npr(job)
    w = job.get("w", 8)
    dut = ctx.build(YCbCr444to422, w)
    sim = ctx.build(gw.Sim, dut)
    inn, outn = ["y", "cb", "cr"], ["y", "cb_cr"]
    fi = fields(dut.sink, inn) + [dut.sink.first, dut.sink.last]
    fo = fields(dut.source, outn) + [dut.source.first, dut.source.last]

    def go(tok, vk, rk, what):
        vp, rp = pattern(vk, rng), pattern(rk, rng, 3989)
        k = np.arange(len(tok))
        f, l = framing(len(tok)//2, rng)
        f, l = np.repeat(f, 2)*(k % 2 == 0), np.repeat(l, 2)*(k % 2 == 1)
        t = np.concatenate([tok, f[:, None], l[:, None]], 1)
        r = sim.run_stream(1, dut.sink, dut.source, t, vp, rp, int(len(tok)*3/min(vp.mean(), rp.mean()) + 3000),
                           in_fields=fi, out_fields=fo, seed=int(rng.integers(1, 1 << 30)), drain=int(40/rp.mean()) + 60)
        e = np.concatenate([expected(tok), f[:, None], l[:, None]], 1)
        compare(ctx, r, t, e.T, outn + ["first", "last"], what)
        ctx.distinct(len(np.unique(np.concatenate([tok[0::2], tok[1::2]], 1), axis=0)))

    if job["kind"] == "pairs":
        v = np.arange(job["k"] << 14, (job["k"] + 1) << 14)
        rng.shuffle(v)
        tok = np.empty((len(v)*2, 3), np.int64)
        tok[:, 0] = rng.integers(0, 256, len(tok))
        a, b = v >> 8, v & 255
        tok[0::2, 1], tok[1::2, 1] = a, b
        p = rng.permutation(len(v))
        tok[0::2, 2], tok[1::2, 2] = a[p], b[p]
        go(tok, "full", "full", "all chroma pairs")
        go(tok, "half", "runs", "all chroma pairs, gaps")
    elif job["kind"] == "w":
        tok = np.stack([corner_values(rng, job["n"], w) for _ in range(3)], 1)
        go(tok, "almost", "almost", "width {}".format(w))
    else:
        for rk in PATTERNS:
            for k in range(3):
                sim.reset()
                sim[dut.source.ready] = int(rng.integers(0, 2))
                idle = int(rng.integers(0, 12))
                for _ in range(idle):
                    sim.settle()
                    sim.tick("sys")
                tok = np.stack([corner_values(rng, job["n"]//3//2*2, 8) for _ in range(3)], 1)
                go(tok, job["v"], rk, "valid={} ready={} after {} idle cycles".format(job["v"], rk, idle))
    ctx.sanitizers(sim)
