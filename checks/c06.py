"""4:2:2 -> 4:4:4 chroma replication, restartable at any cycle"""
import numpy as np
import gw
from csc_common import *

RULE = ("random pixel streams through YCbCr422to444 under every combination of valid and ready schedules; pixel pairs "
        "must come out with their own luma and the Cb of the even / Cr of the odd sample of their pair; the block's "
        "synchronous reset is asserted at random cycles and the stream after it must pair from its first sample; "
        "a case is a distinct (pair values) or (schedule, reset cycle) execution")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics"]
MIN_EVENTS = 100000
MUST_OBSERVE = ("restarts",)


def jobs(tier, seed):
    reps = 2 if tier == "quick" else 30
    return [dict(name="{}-{}-w{}".format(v, k, w), v=v, n=6000, w=w, seed=seed + 13*k)
            for k in range(reps) for v in PATTERNS for w in ((8,) if k else (8, 10))]


def expected(t):
    e = np.empty((len(t), 5), np.int64)
    e[:, 0] = t[:, 0]
    e[:, 1] = np.repeat(t[0::2, 1], 2)
    e[:, 2] = np.repeat(t[1::2, 1], 2)
    e[:, 3:] = t[:, 2:]
    return e


def run(job, ctx):
    from litevideo.csc.ycbcr422to444 import YCbCr422to444
    rng = npr(job)
    w = job["w"]
    dut = ctx.build(YCbCr422to444, w)
    sim = ctx.build(gw.Sim, dut)
    inn, outn = ["y", "cb_cr"], ["y", "cb", "cr", "first", "last"]
    fi = fields(dut.sink, inn + ["first", "last"])
    fo = fields(dut.source, outn)

    def tokens(n):
        k = np.arange(n)
        f, l = framing(n//2, rng)
        return np.stack([corner_values(rng, n, w), corner_values(rng, n, w),
                         np.repeat(f, 2)*(k % 2 == 0), np.repeat(l, 2)*(k % 2 == 1)], 1)

    def go(t, vk, rk, what, cut=None):
        vp, rp = pattern(vk, rng), pattern(rk, rng, 3989)
        r = sim.run_stream(1, dut.sink, dut.source, t, vp, rp, cut or int(len(t)*3/min(vp.mean(), rp.mean()) + 3000),
                           in_fields=fi, out_fields=fo, seed=int(rng.integers(1, 1 << 30)), drain=int(40/rp.mean()) + 60)
        e = expected(t)
        if cut is None:
            compare(ctx, r, t, e.T, outn, what)
            ctx.distinct(len(np.unique(t[:, :2].reshape(-1, 4), axis=0)))
        else:
            o = r["out"][:, :-1]
            ctx.ev(len(o), "pixels compared")
            ctx.expect((o == e[:len(o)]).all(), what + ": wrong pixel before the restart")
            ctx.expect(len(o) <= len(r["accepted"]), what + ": more pixels out than in")

    for rk in PATTERNS:
        sim.reset()
        for _ in range(int(rng.integers(0, 5))):
            sim.tick("sys")
        go(tokens(job["n"]//4//2*2), job["v"], rk, "valid={} ready={}".format(job["v"], rk))
        # restart in mid-stream
        for k in range(6):
            cut = int(rng.integers(1, 120))
            what = "valid={} ready={} cut at {}".format(job["v"], rk, cut)
            sim.reset()
            go(tokens(400), job["v"], rk, what, cut=cut)
            sim[dut.reset] = 1
            if rng.random() < .5:
                sim[dut.sink.valid] = 1
            sim.settle()
            for _ in range(int(rng.integers(1, 3))):
                sim.tick("sys")
            sim[dut.reset] = 0
            sim[dut.sink.valid] = 0
            sim.settle()
            go(tokens(120), job["v"], rk, "after restart, " + what)
            ctx.count("restarts")
            ctx.state(job["v"], rk, cut, k, job["seed"])
    ctx.sanitizers(sim)
