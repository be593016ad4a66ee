"""pixels to serial lanes: the output drivers alone"""
import numpy as np
from migen import *
import gw, phy, tmds, bench
from streams import *

RULE = ("the output driver of each family fed a new random sample (or runs of samples, corner values) in every pixel clock, for every mode, pad polarity and VGA width; the bits each "
        "lane transmits, in the order of the serializer's data sheet, must be the DVI symbols (or the raw 10 bits) of its channel - blue with sync on lane 0, green on 1, red on 2 - "
        "with one common latency, inverted exactly on pads marked so, next to a pixel-rate clock; a case is a distinct sample at a distinct configuration")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "vendor serializers behave as in their data sheets",
          "Spartan-6: a pixel clock used as data is seen with its level before the common edge"]
MIN_EVENTS = 100000
MUST_OBSERVE = ("symbols", "raw symbols", "vga samples", "vga clock pins", "inverted lanes", "clock lanes", "lanes with 5-bit serializers")


def jobs(tier, seed):
    reps = 5 if tier == "quick" else 60
    j = []
    for k in range(reps):
        for dev in ("xc7z020", "xc6slx9"):
            for mode in ("rgb", "raw", "ycbcr422"):
                for ext in ((0, 1) if dev[:3] == "xc6" else (0,)):
                    j.append(dict(name="{}-{}-{}-{}".format(dev, mode, ext, k), dev=dev, mode=mode, ext=ext, vga=0, seed=seed + 59*k))
            for w in (8, 6, 5, 4, 3, 1, (5, 6, 5), (3, 3, 2), (1, 8, 4), (8, 2, 7), (4, 5, 8)):
                j.append(dict(name="{}-vga{}-{}".format(dev, "".join(map(str, w)) if isinstance(w, tuple) else w, k), dev=dev, mode="rgb", ext=0, vga=w, seed=seed + 59*k))
    return j


def stimulus(rng, n, mode):
    if mode == "raw":
        return rng.integers(0, 1 << 10, (n, 3))
    a = np.zeros((n, 6), np.int64)       # r g b hs vs de
    a[:, :3] = rng.integers(0, 256, (n, 3))
    k = 0
    while k < n:
        m = int(rng.choice([1, 2, 7, 40, 200]))
        x = rng.random()
        if x < .25:
            a[k:k + m, :3] = rng.integers(0, 256, 3)
        elif x < .4:
            a[k:k + m, :3] = rng.choice([0, 255, 0x55, 0xaa], 3)
        a[k:k + m, 3], a[k:k + m, 4], a[k:k + m, 5] = rng.integers(0, 2, 3)
        if rng.random() < .2:
            a[k:k + m, 3:] = rng.integers(0, 2, (len(a[k:k + m]), 3))
        k += m
    return a


def run(job, ctx):
    from litevideo.output.driver import Driver
    rng = npr(job)
    mode, s6 = job["mode"], job["dev"].startswith("xc6")
    inv = [x for x in ("data0", "data1", "data2", "clk") if rng.random() < .4]
    pads = phy.vga_pads(job["vga"]) if job["vga"] else phy.hdmi_pads(inv)
    dut = ctx.build(Driver, job["dev"], pads, mode, phy.ExternalClocking() if job["ext"] else None)
    top = bench.Host(dut, 8) if dut.get_csrs() else dut
    clocks = ("sys", "pix") + (("pix2x",) if s6 else ())
    sim = ctx.build(gw.Sim, top, clocks=clocks)
    phy.locked(sim)
    names = ["data0", "data1", "data2"]
    s = dut.sink
    fields = [s.c0, s.c1, s.c2] if mode == "raw" else [s.r, s.g, s.b, s.hsync, s.vsync, s.de]
    n = 2600
    st = stimulus(rng, n, mode)
    if job["vga"]:
        p = pads
        trace = [p.hsync_n, p.vsync_n, p.r, p.g, p.b, p.psave_n]
    else:
        lanes = ctx.build(phy.Lanes, sim, pads, names + ["clk"])
        trace = [x for m in names for x in lanes.lanes[m][0]]
    clk0 = len(trace)
    if not job["vga"]:
        trace += lanes.lanes["clk"][0]
    per = {"pix": 20., "sys": 20.*float(rng.choice([.7, 1.9]))}
    if s6:
        per["pix2x"] = 10.
    b = phy.aligned_bench(sim, per, rng, trace + [s.ready], None)
    b.ticks(12, "pix")
    sim[s.valid] = 1
    b.collect()
    b.drive(fields, st, "pix")
    b.ticks(n + 20, "pix")
    d, a, m = b.collect_all()
    ctx.expect((a[:, -1] == 1).all(), "{}: the driver stalls the pixel stream".format(job["name"]))
    ctx.sanitizers(sim)
    if job["vga"]:
        vga(job, ctx, d["pix"], st, n)
        vga_clock(job, ctx, sim, pads)
        return
    if not s6:
        x = d["pix"]
        sym = [phy.symbols(x[:, 10*k:10*k + 10]) for k in range(3)]
        ck = x[:, clk0:clk0 + 10]
    else:
        x = d["pix2x"]
        t = m[(m & b.bits["pix2x"]) != 0]
        first = int(np.nonzero((t & b.bits["pix"]) != 0)[0][0])
        sym = [phy.pair_halves(phy.symbols(x[:, 5*k:5*k + 5]), first) for k in range(3)]
        ck = x[:, clk0:clk0 + 2]
        ctx.count("lanes with 5-bit serializers", 3)
    # clock lane
    if s6:
        e = [0, 1] if "clk" in inv else [1, 0]
        ctx.expect((ck == e).all(), "{}: clock lane sends {} per pixel, expected {}".format(job["name"], ck[0].tolist(), e))
    else:
        e = [0]*5 + [1]*5 if "clk" in inv else [1]*5 + [0]*5
        ctx.expect((ck == e).all(), "{}: clock lane sends {} per pixel, expected {}".format(job["name"], ck[0].tolist(), e))
    ctx.count("clock lanes")
    lat = set()
    for k in range(3):
        y = sym[k].copy()
        if names[k] in inv:
            y ^= 0x3ff
            ctx.count("inverted lanes")
        if mode == "raw":
            exp = st[:, k]
        else:
            de = st[:, 5]
            c = st[:, 3] | (st[:, 4] << 1) if k == 0 else 0*de
            exp = tmds.encode(st[:, 2 - k], c, de)
        # one latency for the whole run; before the first control period the disparity is unknown
        ok = None
        best, bl = -1, None
        lo = 0 if mode == "raw" else int(np.nonzero(st[:, 5] == 0)[0][0])
        for L in range(0, 14):
            g = y[L + lo:L + n]
            e = exp[lo:lo + len(g)]
            bad = np.nonzero(g[:len(e)] != e)[0]
            if not len(bad):
                ok = L
                break
            if bad[0] > best:
                best, bl = int(bad[0]), L
        if ok is None:
            i = lo + best
            ctx.fail("{}: lane {}: symbol of sample {} ({}) is {:010b}, expected {:010b} (first transmitted bit on the right)".format(
                job["name"], names[k], i, st[i].tolist(), int(y[bl + i]), int(exp[i])))
            continue
        lat.add(ok)
        ctx.ev(n)
        ctx.count("symbols", n)
        if mode == "raw":
            ctx.count("raw symbols", n)
    ctx.expect(len(lat) <= 1, "{}: the lanes are skewed by whole pixels: latencies {}".format(job["name"], sorted(lat)))
    lanes.enabled(ctx, job["name"])
    ctx.distinct(n)
    ctx.sample("{}: inverted {}, latency {}".format(job["name"], inv, sorted(lat)))


def vga(job, ctx, x, st, n):
    w = job["vga"]
    w = w if isinstance(w, (list, tuple)) else 3*[w]
    exp = np.stack([1 - st[:, 3], 1 - st[:, 4]] + [st[:, k] >> (8 - w[k]) for k in range(3)], 1)
    for L in range(0, 8):
        g = x[L:L + n, :5]
        bad = np.nonzero((g != exp[:len(g)]).any(axis=1))[0]
        if not len(bad):
            break
    else:
        g = x[:n, :5]
        i = int(np.nonzero((g != exp[:len(g)]).any(axis=1))[0][0])
        ctx.fail("{}: pins hsync_n,vsync_n,r,g,b={} for sample {}, expected {}".format(job["name"], g[i].tolist(), st[i].tolist(), exp[i].tolist()))
    ctx.expect((x[:, 5] == 1).all(), "{}: psave_n is low".format(job["name"]))
    ctx.ev(n)
    ctx.count("vga samples", n)
    ctx.distinct(n)


def vga_clock(job, ctx, sim, pads):
    """the clock pin follows the pixel clock, directly or through a DDR register"""
    dd = [i for i in sim.instances if i.of == "ODDR2"]
    lv = []
    for k in range(4):
        sim.tick("pix")
        for v, f in ((1, None), (0, sim.fall)):
            if f:
                f("pix")
            for i in dd:
                # a rising C0 (C1) outputs D0 (D1)
                c0, c1 = sim[i.inputs["C0"]] & 1, sim[i.inputs["C1"]] & 1
                if not ctx.expect(c0 == v and c1 == 1 - v and sim[i.inputs["CE"]] == 1, "{}: clock register inputs C0={} C1={} while the pixel clock is {}".format(job["name"], c0, c1, v)):
                    return
                sim[i.outputs["Q"]] = sim[i.inputs["D0" if v else "D1"]]
                sim.settle()
            lv.append(sim[pads.clk])
    ctx.expect(lv == [1, 0]*4, "{}: clk pin {} over the halves of 4 pixel clocks".format(job["name"], lv))
    ctx.count("vga clock pins")
