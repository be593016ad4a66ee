"""stream integrity of every processing block under any valid/ready schedule"""
import numpy as np
from migen import *
import gw
from csc_common import *

RULE = ("each stream block is run once at full speed and then under random/bursty/sparse valid and ready schedules, with "
        "garbage on the input while it is not valid, idle prologues and mid-stream resets; the delivered token "
        "sequence (payload, first, last) must be that of the full-speed run, one output per accepted input, outputs "
        "stable while stalled, and everything delivered within a bounded number of cycles; a case is a distinct "
        "(block, schedule, phase, idle prologue, reset point) execution")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics"]
MIN_EVENTS = 100000
MUST_OBSERVE = ("stalled outputs", "input bubbles", "resets mid-stream")

BLOCKS = ["RGB2YCbCr", "YCbCr2RGB", "RGB2RGB16f", "RGB16f2RGB", "YCbCr422to444", "YCbCr444to422", "FloatAdd", "FloatMult"]


def make(name):
    from litevideo.csc import rgb2ycbcr, ycbcr2rgb, rgb2rgb16f, rgb16f2rgb, ycbcr422to444, ycbcr444to422
    from litevideo.float_arithmetic import floatadd, floatmult
    for m in (rgb2ycbcr, ycbcr2rgb, rgb2rgb16f, rgb16f2rgb, ycbcr422to444, ycbcr444to422, floatadd, floatmult):
        if hasattr(m, name) and m.__name__.split(".")[-1] == name.lower():
            return getattr(m, name)()
    raise gw.EngineError(name)


IN = {"RGB2YCbCr": ["r", "g", "b"], "YCbCr2RGB": ["y", "cb", "cr"], "RGB2RGB16f": ["r", "g", "b"],
      "RGB16f2RGB": ["rf", "gf", "bf"], "YCbCr422to444": ["y", "cb_cr"], "YCbCr444to422": ["y", "cb", "cr"],
      "FloatAdd": ["in1", "in2"], "FloatMult": ["in1", "in2"]}
OUT = {"RGB2YCbCr": ["y", "cb", "cr"], "YCbCr2RGB": ["r", "g", "b"], "RGB2RGB16f": ["rf", "gf", "bf"],
       "RGB16f2RGB": ["r", "g", "b"], "YCbCr422to444": ["y", "cb", "cr"], "YCbCr444to422": ["y", "cb_cr"],
       "FloatAdd": ["out"], "FloatMult": ["out"]}
# positive finite operands
LIMIT = {"RGB16f2RGB": 0x3c01, "FloatAdd": 0x7800, "FloatMult": 0x5c00}


def jobs(tier, seed):
    j = []
    reps = 3 if tier == "quick" else 60
    for b in BLOCKS:
        for k in range(reps):
            j.append(dict(name="{}-{}".format(b, k), block=b, n=1600 if tier == "quick" else 3000, seed=seed + 31*k))
    return j


def run(job, ctx):
    rng = npr(job)
    b = job["block"]
    dut = ctx.build(make, b)
    sim = ctx.build(gw.Sim, dut)
    fi = fields(dut.sink, IN[b]) + [dut.sink.first, dut.sink.last]
    fo = fields(dut.source, OUT[b]) + [dut.source.first, dut.source.last]
    n = job["n"]
    mask = sim.mask("sys")

    def tokens(n):
        cols = []
        for s in fi[:-2]:
            w = s.nbits
            v = rng.integers(0, LIMIT.get(b, 1 << w), n) if b in LIMIT else corner_values(rng, n, w)
            cols.append(v)
        f, l = framing(n, rng)
        if "42" in b:        # packets of whole pairs
            k = np.arange(n)
            f, l = np.repeat(f[::2], 2)*(k % 2 == 0), np.repeat(l[::2], 2)*(k % 2 == 1)
        return np.stack(cols + [f, l], 1)

    def go(tok, vp, rp, mc, drain=80):
        return sim.run_stream(mask, dut.sink, dut.source, tok, vp, rp, mc, in_fields=fi, out_fields=fo,
                              seed=int(rng.integers(1, 1 << 30)), drain=drain)

    tok = tokens(n)
    sim.reset()
    ref = go(tok, [1], [1], 3*n + 500)
    ctx.expect(len(ref["out"]) == n, "{}: full speed: {} of {} tokens delivered".format(b, len(ref["out"]), n))
    if len(ref["out"]) != n:
        return
    exp = ref["out"][:, :-1]
    ctx.expect((exp[:, -2:] == tok[:, -2:]).all(), "{}: first/last not forwarded with their token (full speed)".format(b))
    # full speed means one token per cycle, on average
    ctx.expect(ref["cycles"] <= n + 300, "{}: {} tokens took {} cycles without stalls".format(b, n, ref["cycles"]))
    for vk in PATTERNS:
        for rk in PATTERNS:
            vp, rp = pattern(vk, rng, int(rng.integers(700, 4099))), pattern(rk, rng, int(rng.integers(700, 3989)))
            dv, dr = vp.mean(), rp.mean()
            bound = int(n/min(dv, dr)*3 + 3000)
            sim.reset()
            idle = int(rng.integers(0, 9))
            sim[dut.source.ready] = int(rng.integers(0, 2))
            for _ in range(idle):
                for s in fi:
                    sim[s] = int(rng.integers(0, 1 << s.nbits))
                sim.settle()
                sim.tick("sys")
            r = go(tok, vp, rp, bound, drain=int(40/dr) + 60)
            what = "{} valid={} ready={} after {} idle cycles".format(b, vk, rk, idle)
            check(ctx, r, exp, n, what)
            ctx.state(b, vk, rk, idle, job["seed"])
            ctx.count("stalled outputs" if rk != "full" else "unstalled runs", 1)
            if vk != "full":
                ctx.count("input bubbles", 1)
    # resets in mid-stream: what follows is a fresh stream
    for k in range(6):
        vk, rk = PATTERNS[int(rng.integers(len(PATTERNS)))], PATTERNS[int(rng.integers(len(PATTERNS)))]
        vp, rp = pattern(vk, rng), pattern(rk, rng, 3989)
        sim.reset()
        cut = int(rng.integers(3, 300))
        go(tok, vp, rp, cut)
        sim[sim.rst("sys")] = 1
        sim.settle()
        for _ in range(int(rng.integers(1, 4))):
            sim.tick("sys")
        sim[sim.rst("sys")] = 0
        sim[dut.sink.valid] = 0
        sim.settle()
        ctx.expect(not sim[dut.source.valid], "{}: output still valid after reset".format(b))
        r = go(tok, vp, rp, int(n/min(vp.mean(), rp.mean())*3 + 3000), drain=int(40/rp.mean()) + 60)
        check(ctx, r, exp, n, "{} valid={} ready={} after a reset at cycle {}".format(b, vk, rk, cut))
        ctx.count("resets mid-stream")
        ctx.state(b, vk, rk, "reset", cut, job["seed"])
    ctx.sanitizers(sim)


def check(ctx, r, exp, n, what):
    out = r["out"][:, :-1]
    ctx.ev(len(out), "tokens compared")
    m = min(n, len(out))
    bad = np.nonzero((out[:m] != exp[:m]).any(axis=1))[0]
    if len(bad):
        i = bad[0]
        ctx.fail("{}: token {} is {}, full-speed run delivered {}".format(what, i, out[i].tolist(), exp[i].tolist()))
    elif len(r["accepted"]) != n:
        ctx.fail("{}: only {} of {} tokens accepted in {} cycles".format(what, len(r["accepted"]), n, r["cycles"]))
    elif len(out) != n:
        ctx.fail("{}: {} tokens accepted, {} delivered".format(what, n, len(out)))
    if r["stab"]:
        ctx.fail("{}: output changed or was withdrawn while stalled ({} times, first at cycle {})".format(what, r["stab"], r["stab_cycle"]))
