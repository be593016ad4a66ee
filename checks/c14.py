"""sync polarity recovery and alignment"""
import numpy as np
from migen import *
import gw, raster
from streams import *

RULE = ("decoded video of random geometries and mode switches with all four sync polarities, control bits held during active data; the "
        "recovered hsync/vsync must be the active-high syncs of the raster, aligned with data enable, pixels and valid; a case is a "
        "distinct (geometry, polarity) frame")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "each line has a front porch of at least one pixel"]
MIN_EVENTS = 200000
MUST_OBSERVE = ("frames", "polarity 0", "polarity 1", "polarity 2", "polarity 3", "mode switches", "polarity switches")


def jobs(tier, seed):
    n = 16 if tier == "quick" else 200
    return [dict(name="{}-{}".format(k, i), kind=k, seed=seed + i) for i in range(n) for k in ("dvi", "hdmi")]


def geometry(rng, hmax=50, vmax=14):
    p = raster.geometry(rng, hmax, vmax)
    for n in ("hsync_start", "hsync_end", "hscan"):
        p[n] += 1
    return p


def run(job, ctx):
    from litevideo.input.analysis import SyncPolarity
    rng = npr(job)
    hdmi = job["kind"] == "hdmi"
    dut = ctx.build(SyncPolarity, True) if hdmi else ctx.build(SyncPolarity)
    sim = ctx.build(gw.Sim, dut, clocks=("pix", "pix_o"))
    rows, pols, first = [], [], []
    p, pol = geometry(rng), int(rng.integers(0, 4))
    tot = 0
    prev = None
    while tot < 40000:
        if rng.random() < .3:
            p = geometry(rng)
            ctx.count("mode switches")
        if rng.random() < .2:
            pol = int(rng.integers(0, 4))
            ctx.count("polarity switches")
        f = raster.frame(p)
        # the first line after a switch decides the polarity: known from there on
        known = np.ones(len(f), np.int64)
        if prev != (pol,):
            known[:p["hres"] + 1] = 0
        prev = (pol,)
        rows.append(np.concatenate([f, np.full((len(f), 1), pol), known[:, None]], 1))
        tot += len(f)
        ctx.count("frames")
        ctx.count("polarity {}".format(pol))
        ctx.state(tuple(p.values()), pol)
    R = np.concatenate(rows)
    n = len(R)
    hs, vs, de, po, known = R.T
    c = (hs | (vs << 1)) ^ po
    # the decoder holds the control bits during active data
    idx = np.maximum.accumulate(np.where(de == 0, np.arange(n), -1))
    ch = np.where(idx >= 0, c[np.maximum(idx, 0)], po[0])
    known = known.copy()
    d = rng.integers(0, 256, (n, 3))
    raw = rng.integers(0, 1024, (n, 3))
    val = (np.repeat(rng.random(n//200 + 1) < .85, 200)[:n]).astype(np.int64)
    other = rng.integers(0, 4, (n, 2))
    ins, cols = [dut.valid_i], [val]
    junk = rng.integers(0, 2, n)
    for k in range(3):
        r = getattr(dut, "data_in{}".format(k))
        ins += [r.d, r.raw, r.c, r.de]
        # in HDMI mode data enable comes from the TERC4 decoder
        cols += [d[:, k], raw[:, k], ch if k == 0 else other[:, k - 1], (junk | de) if hdmi else de]
    if hdmi:
        ins.append(dut.de_int)
        cols.append(de)
    outs = [dut.de, dut.hsync, dut.vsync, dut.r, dut.g, dut.b, dut.valid_o, dut.c0, dut.c1, dut.c2]
    out = sim.run_trace(sim.mask("pix") | sim.mask("pix_o"), ins, np.stack(cols, 1), outs)
    # expected syncs: during active data they keep their value of before
    ehs = np.where(de == 0, hs, np.where(idx >= 0, hs[np.maximum(idx, 0)], 0))
    evs = np.where(de == 0, vs, np.where(idx >= 0, vs[np.maximum(idx, 0)], 0))
    ref = np.stack([de, ehs, evs, d[:, 2], d[:, 1], d[:, 0], val, raw[:, 0], raw[:, 1], raw[:, 2]], 1)
    names = ["data enable", "hsync", "vsync", "red", "green", "blue", "valid", "raw c0", "raw c1", "raw c2"]
    best, ok = (-1, ""), None
    for l in range(1, 6):
        g, r, kn = out[l:], ref[:n - l], known[:n - l]
        bad = g != r
        bad[:, 1:3] &= (kn == 1)[:, None]
        bad[:4] = False
        x = np.nonzero(bad.any(axis=1))[0]
        if not len(x):
            ok = l
            break
        if x[0] > best[0]:
            i = int(x[0])
            w = names[int(np.nonzero(bad[i])[0][0])]
            best = (i, "{}: {} wrong at sample {}: got {} expected {} (polarity {})".format(job["name"], w, i, g[i].tolist(), r[i].tolist(), int(po[i])))
    if ok is None:
        ctx.fail(best[1])
        return
    ctx.ev(n)
    ctx.sample("{}: {} samples, latency {}".format(job["name"], n, ok))
    ctx.sanitizers(sim)
