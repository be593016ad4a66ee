"""the live picture of a receiver: pixels, syncs and raw characters of every clock"""
import numpy as np
from migen import *
import gw, bench, raster, tmds, rxphy, rxlink
from streams import *

RULE = ("complete receivers of both families, with and without memory port, fed with serial TMDS bits of random video (any sync polarity, lane skew, pad polarity; guard bands and data islands in HDMI mode); "
        "from lock-in on, the live outputs must be the transmitted characters of all three lanes, one per clock at a constant delay, with data enable, colours and active-high syncs of the same "
        "character; after noise the same again; a case is a distinct frame seen live")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "vendor primitives behave as in UG471 and UG381",
          "blanking long enough for synchronisation; lane skew below 5 characters; front porch of at least one pixel"]
MIN_EVENTS = 100000
MUST_OBSERVE = ("frames live", "s6", "s7", "dvi", "hdmi", "dvi mode on HDMI receiver", "inverted lanes", "noise bursts", "frames after noise", "polarity 0", "polarity 3", "without memory port",
                "with memory port", "split clocking", "raw characters outside the picture", "characters of islands and guard bands")


def jobs(tier, seed):
    n = 6 if tier == "quick" else 80
    return [dict(name="{}-{}-{}".format(dev, "hdmi" if hdmi else "dvi", i), dev=dev, hdmi=hdmi, seed=seed + 7*i) for i in range(n) for dev in ("xc7", "xc6") for hdmi in (False, True)]


def run(job, ctx):
    rng = npr(job)
    hdmi = job["hdmi"]
    s7 = job["dev"] == "xc7"
    memory = rng.random() < .4
    split = s7 and rng.random() < .4
    inv = tuple(n for n in ("data0", "data1", "data2", "clk") if rng.random() < .35 and (s7 or n != "clk"))
    lb = rxlink.LinkBench(ctx, rng, job["dev"], str(rng.choice(["rgb", "ycbcr422"])), hdmi, inv, dw=64, csr_width=int(rng.choice([8, 32])), split=split,
                          edid=rng.random() < .5, sysper=float(rng.uniform(4, 12)), memory=memory, live=True)
    ctx.count("inverted lanes", len(inv))
    ctx.count("s7" if s7 else "s6")
    ctx.count("hdmi" if hdmi else "dvi")
    ctx.count("with memory port" if memory else "without memory port")
    if split:
        ctx.count("split clocking")
    name = job["name"]
    p = rxlink.hdmi_geometry(rng, 1, int(rng.choice([16, 60, 300])), int(rng.choice([2, 4, 12])), hdmi)
    pol = int(rng.choice([0, 3, rng.integers(0, 4)]))
    ctx.count("polarity {}".format(pol))
    dvimode = hdmi and rng.random() < .3
    if dvimode:
        lb.w("dvimode", 1)
        ctx.count("dvi mode on HDMI receiver")
    F = 14
    f = raster.frame(p)
    n = len(f)
    lock = 2.2 + 16*(p["hscan"] + 1)/n
    F = int(2*lock + 8)
    act = f[:, 2] == 1
    pxs, syms, ctl = [], [], []
    for k in range(F):
        px = rng.integers(0, 256, (n, 3))
        if rng.random() < .3:
            px = np.where(rng.random((n, 3)) < .5, 0, 255)
        if hdmi and rng.random() < .5:
            px[np.nonzero(act)[0].reshape(p["vres"], p["hres"])[:, :min(2, p["hres"])].ravel()] = (0xab, 0x55, 0xab)
        syms.append(rxlink.frame_symbols(rng, p, pol, px, hdmi and not dvimode, .8, ctl))
        pxs.append(px)
    S = np.stack([np.concatenate([x[i] for x in syms]) for i in range(3)], 1)
    N = len(S)
    ctl = np.concatenate(ctl)
    de = np.tile(act, F).astype(np.int64)
    # the syncs of the last control character
    idx = np.maximum.accumulate(np.where(ctl, np.arange(N), 0))
    sync = np.tile(f[:, :2], (F, 1))[idx]
    ref = np.concatenate([np.ones((N, 1), np.int64), de[:, None], sync, np.concatenate(pxs), S], 1)
    noise = None
    if rng.random() < .6:
        a = int(rng.integers(int((lock + 2)*n), int((lock + 4)*n)))*10
        noise = (a, a + int(rng.choice([1, 3, 10, 200, 2000])))
        ctx.count("noise bursts")
    lb.b.ticks(60)
    lb.b.collect("pix")
    d = lb.send([S[:, i] for i in range(3)], rng.integers(0, 45, 3), noise)
    while lb.b.left(d) > 0:
        lb.b.ticks(min(5000, lb.b.left(d)), lb.slow)
        if rng.random() < .2 and s7 and not split:
            lb.r("channels_synced")
    out = lb.b.collect("pix")
    names = ("valid", "data enable", "hsync", "vsync", "red", "green", "blue", "raw character 0", "raw character 1", "raw character 2")
    stretch = [(int((lock + 1)*n), N if noise is None else noise[0]//10 - 10)]
    if noise is not None:
        stretch.append((int(noise[1]/10 + (lock + 1)*n), N))
    for i, (a, b) in enumerate(stretch):
        b -= 40                      # still on its way
        if b - a < n:
            continue
        r = ref[a:b]
        best = None
        for lat in range(0, 80):
            g = out[a + lat:b + lat]
            m = min(len(g), len(r))
            if m < n:
                continue
            x = g[:m] != r[:m]
            x[:, 4:7] &= (r[:m, 1] == 1)[:, None]          # colours of the picture only
            q = x.sum()
            if best is None or q < best[0]:
                best = (int(q), lat, x, m)
        q, lat, x, m = best
        if q:
            t = int(np.nonzero(x.any(axis=1))[0][0])
            c = int(np.nonzero(x[t])[0][0])
            ctx.fail("{}: {} is {:#x} at character {} of frame {}, expected {:#x} ({} characters wrong at the best delay {}; {} wrong here; {}x{}, polarity {}, inverted {}, noise {})".format(
                name, names[c], int(out[a + lat + t, c]), (a + t) % n, (a + t)//n, int(r[t, c]), int(x.any(axis=1).sum()), lat,
                [int(v) for v in x.sum(axis=0)], p["hres"], p["vres"], pol, inv, noise and (noise[0]/10/n, noise[1]/10/n)))
            return
        ctx.ev(m)
        ctx.count("frames live", m//n)
        if i:
            ctx.count("frames after noise", m//n)
        ctx.count("raw characters outside the picture", int((r[:, 1] == 0).sum()))
        ctx.count("characters of islands and guard bands", int(((r[:, 1] == 0) & ~ctl[a:b]).sum()))
        for k in range(m//n):
            ctx.state(name, i, k)
    ctx.sample("{}: {}x{} of {} clocks, {} frames, delay {}".format(name, p["hres"], p["vres"], n, F, lat))
    ctx.sanitizers(lb.sim)
