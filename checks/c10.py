"""TMDS encoder"""
import numpy as np
from migen import *
import gw, tmds
from streams import *

RULE = ("random and worst-case sequences of active and control periods of any length driven into the TMDS encoder; every output symbol is "
        "compared with the DVI 1.0 algorithm including its running disparity, and the disparity of the wire is tracked independently; "
        "a case is a distinct (pixel value, running disparity) or control transition")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics"]
MIN_EVENTS = 200000
MUST_OBSERVE = ("active periods", "control symbols", "data symbols", "data/disparity pairs")


def jobs(tier, seed):
    n = 16 if tier == "quick" else 200
    kinds = ["random", "worst", "short", "pairs", "image", "ctl"]
    return [dict(name="{}-{}".format(kinds[k % 6], k), kind=kinds[k % 6], seed=seed + k, n=60000 if tier == "quick" else 400000) for k in range(n)]


def run(job, ctx):
    from litevideo.output.hdmi.encoder import Encoder
    rng = npr(job)
    dut = ctx.build(Encoder)
    sim = ctx.build(gw.Sim, dut)
    n = job["n"]
    k = job["kind"]
    d = rng.integers(0, 256, n)
    c = rng.integers(0, 4, n)
    de = np.ones(n, np.int64)
    i = 0
    lens = {"random": (1, 300), "worst": (200, 3000), "short": (1, 6), "pairs": (20, 60), "image": (300, 2000), "ctl": (1, 4)}[k]
    blk = {"ctl": (1, 40)}.get(k, (1, 60))
    while i < n:
        a, b = int(rng.integers(*lens)), int(rng.integers(*blk))
        de[i + a:i + a + b] = 0
        i += a + b
        ctx.count("active periods")
    if k == "worst":
        # drive the disparity to its extremes: greedy choice among random candidates
        cnt, sgn = 0, 1
        tab = tmds.TABLE
        for j in range(n):
            if not de[j]:
                cnt = 0
                sgn = -sgn
                continue
            if rng.random() < .1:
                sgn = -sgn
            best = max((tab[int(x), cnt][1]*sgn, int(x)) for x in rng.integers(0, 256, 6))
            d[j] = best[1]
            cnt = tab[best[1], cnt][1]
    elif k == "image":
        # constant and slowly changing areas
        d = (np.repeat(rng.integers(0, 256, n//16 + 1), 16)[:n] + (rng.random(n) < .1)) & 255
    elif k == "pairs":
        d[1::2] = d[::2][:len(d[1::2])]
    if job["seed"] % 2:
        c[:] = np.repeat(rng.integers(0, 4, n//50 + 1), 50)[:n]
    stim = np.stack([d, c, de], 1)
    out = sim.run_trace(sim.mask("sys"), [dut.d, dut.c, dut.de], stim, [dut.out])[:, 0]
    ref = tmds.encode(d, c, de)
    lat, where = None, (-1, 0)
    for l in range(1, 13):
        bad = np.nonzero(out[l + 8:] != ref[8:-l])[0]
        if not len(bad):
            lat = l
            break
        if bad[0] > where[0]:
            where = (int(bad[0]), l)
    # independent disparity tracking on the wire
    ones = np.array([bin(s).count("1") for s in range(1024)])
    if lat is None:
        i, l = where
        ctx.fail("{}: symbol for d={:#x} c={} de={} (position {}) is {:010b}, the DVI algorithm gives {:010b}".format(
            job["name"], int(d[i + 8]), int(c[i + 8]), int(de[i + 8]), i + 8, int(out[i + 8 + l]), int(ref[i + 8])))
        return
    ctx.ev(n - lat)
    ctx.count("control symbols", int((de == 0).sum()))
    ctx.count("data symbols", int((de == 1).sum()))
    run_, mx, cnt = 0, 0, 0
    o = out[lat:]
    pairs = set()
    cums = 0
    for j in range(len(o)):
        if de[j]:
            pairs.add((int(d[j]), cums))
            cums += 2*int(ones[o[j]]) - 10
            mx = max(mx, abs(cums))
        else:
            cums = 0
    ctx.expect(mx <= 12, "{}: running disparity of the wire reaches {}".format(job["name"], mx))
    ctx.count("data/disparity pairs", len(pairs))
    ctx.states_bulk(pairs)
    dec, dd, cc = tmds.decode(o)
    ctx.expect((dec == de[:len(o)]).all() and (dd[dec == 1] == d[:len(o)][dec == 1]).all() and (cc[dec == 0] == c[:len(o)][dec == 0]).all(),
               "the symbols do not decode to the input")
    ctx.sample("{}: {} symbols, latency {}, max disparity {}".format(job["name"], len(o), lat, mx))
    ctx.sanitizers(sim)
