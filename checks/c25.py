"""memory to TMDS symbols: VideoOut as a whole"""
import numpy as np
import gw, raster, phy, tmds, golden, bench
from streams import *

RULE = ("VideoOut in every mode on Series 7 and Spartan-6 and to VGA, with a DRAM model; once the pipeline is filled, the symbols that enter the serializers, decoded as "
        "DVI, must be the raster of the programmed parameters pixel by pixel, with data enable exactly over the pixels of the frame buffer (converted, in 4:2:2 mode), and be "
        "so again after starvation, restarts and parameter changes; a case is a distinct (configuration, geometry, phase of the run)")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "vendor serializers behave as in their data sheets", "4:2:2: even width, horizontal blanking of at least 4 pixels",
          "legal frame parameters, length matching the active pixels"]
MIN_EVENTS = 100000
MUST_OBSERVE = ("pixels checked", "frames", "starvations", "restarts", "rgb frames", "ycbcr422 frames", "raw samples", "vga frames", "spartan-6 pixels")


def jobs(tier, seed):
    reps = 6 if tier == "quick" else 80
    j = []
    for k in range(reps):
        for mode in ("rgb", "ycbcr422", "raw"):
            for dev in ("xc7a35t", "xc6slx45"):
                j.append(dict(name="{}-{}-{}".format(dev, mode, k), dev=dev, mode=mode, vga=0, seed=seed + 53*k))
        for mode in ("rgb", "ycbcr422"):
            j.append(dict(name="vga-{}-{}".format(mode, k), dev="xc7a35t" if k % 2 else "xc6slx45", mode=mode, vga=[8, 6, 5, 4, 8, 1][k % 6], seed=seed + 53*k))
    return j


def run(job, ctx):
    rng = npr(job)
    mode = job["mode"]
    inv = [n for n in ("data0", "data1", "data2") if rng.random() < .3]
    ob = phy.OutBench(ctx, rng, job["dev"], mode, int(rng.choice([32, 64, 512])), int(rng.choice([8, 32])), inv, job["vga"], external=rng.random() < .3 and ob_s6(job))
    b = ob.b
    for k in range(4):
        p = raster.geometry(rng, 40, 10) if k or rng.random() < .7 else raster.slim(rng, 9000)
        if mode == "ycbcr422":
            p["hres"] += p["hres"] & 1
            d = max(0, p["hres"] + 4 - p["hscan"])
            for n in ("hsync_start", "hsync_end", "hscan"):
                p[n] += d + 1
        total = raster.size(p)
        words = p["hres"]*p["vres"] if mode != "raw" else total
        wb = ob.dw//8
        base = int(rng.integers(0, (1 << ob.aw) - words))
        mem = (256, 256, int(rng.integers(2, 10)))
        ob.memory(*mem)
        ob.program(p, base*wb, words*wb)
        if k:
            ctx.count("restarts")
        ob.w("enable", 1)
        b.ticks(2*total + 400, "pix")
        for phase in range(3):
            ob.take()
            b.ticks(2*total + total//2 + 20, "pix")
            if not look(job, ctx, ob, p, base, words, phase):
                return
            ctx.state(job["name"], job["seed"], k, phase)
            if phase < 2:
                # starve the memory, then let it recover
                x = rng.random()
                if x < .7:
                    ob.memory(*mem, hold=1)
                    b.ticks(int(rng.integers(10, 700)), "pix")
                    ctx.count("starvations")
                else:
                    ob.memory(20, 30, 10)
                    b.ticks(int(rng.integers(100, 900)), "pix")
                    ctx.count("starvations")
                ob.memory(*mem)
                b.ticks(2*total + 700, "pix")
        ob.w("enable", 0)
        ob.memory(*mem)
        b.ticks(12*total + 1200, "pix")
    if not job["vga"]:
        ob.lanes.enabled(ctx, job["name"])
    ctx.expect(ob.sim[ob.dram.lost] == 0, "memory words arrived with no room for them")
    ctx.sample("{}: last geometry {}".format(job["name"], p))
    ctx.sanitizers(ob.sim)


def ob_s6(job):
    return job["dev"].startswith("xc6")


def reference(ob, p, base, words):
    """-> [total][8]: hs, vs, de, r, g, b"""
    ref = np.zeros((raster.size(p), 6), np.int64)
    ref[:, :3] = raster.frame(p)
    act = np.nonzero(ref[:, 2])[0]
    w = ob.word(base + np.arange(words))
    if ob.mode == "rgb":
        r, g, b = w & 255, (w >> 8) & 255, (w >> 16) & 255
    else:
        y, c = w & 255, w >> 8
        r, g, b = golden.ycbcr2rgb(y, np.repeat(c[0::2], 2), np.repeat(c[1::2], 2))
    ref[act, 3], ref[act, 4], ref[act, 5] = r, g, b
    return ref


def look(job, ctx, ob, p, base, words, phase):
    sym = ob.take()
    what = "{} (phase {})".format(job["name"], ["start", "after starvation", "after starvation"][phase])
    if ob.mode == "raw":
        return raw(job, ctx, ob, sym, p, base, words, what)
    ref = reference(ob, p, base, words)
    if ob.vga:
        w = ob.vga
        ctx.expect((sym[:, 5] == 1).all(), "{}: the converter is in power save".format(what))
        got = np.stack([1 - sym[:, 0], 1 - sym[:, 1], sym[:, 2], sym[:, 3], sym[:, 4]], 1)
        ref2 = np.concatenate([ref[:, :2], ref[:, 3:] >> (8 - w)], 1)
        de = ref[:, 2] == 1
        # there is no data enable on this interface: what is on the wires outside of the active area does not matter
        hits, best, bm = phy.find_rotation(got[:, :2], ref[:, :2])
        ok = None
        for o in hits:
            i = (o + np.arange(len(got))) % len(ref)
            if ((got[:, 2:] == ref2[i, 2:]).all(axis=1) | ~de[i]).all():
                ok = o
                break
        if ok is None:
            # report against a rotation in which sync matches
            if not hits:
                ctx.fail("{}: vga sync is not the raster of {} (best match ends after {} pixels)".format(what, p, bm))
            else:
                def bad(o):
                    i = (o + np.arange(len(got))) % len(ref)
                    return np.nonzero((got[:, 2:] != ref2[i, 2:]).any(axis=1) & de[i])[0], i
                n, i = min((bad(o) for o in hits), key=lambda z: len(z[0]))
                k = int(n[0])
                ctx.fail("{}: {} of {} pixels differ; pixel at h={} is {} expected {}".format(what, len(n), int(de[i].sum()), int(i[k] % (p["hscan"] + 1)), got[k, 2:].tolist(), ref2[i[k], 2:].tolist()))
            return False
        ctx.count("vga frames", len(got)//len(ref))
    else:
        de, d, c = tmds.decode(sym)
        same = (de == de[:, :1]).all(axis=1)
        if not same.all():
            k = int(np.nonzero(~same)[0][0])
            ctx.fail("{}: data enable differs between the channels at pixel clock {}: {}".format(what, k, de[k].tolist()))
            return False
        got = np.stack([c[:, 0] & 1, c[:, 0] >> 1, de[:, 0], d[:, 2], d[:, 1], d[:, 0]], 1)
        # sync is sent outside of the active area only
        ref2 = ref.copy()
        a = ref2[:, 2] == 1
        ref2[a, :2] = 0
        if not ctx.expect((c[:, 1:] == 0).all(), "{}: control bits on channels 1 or 2".format(what)):
            return False
        hits, best, bm = phy.find_rotation(got, ref2)
        if not hits:
            t, tb, tm = phy.find_rotation(got[:, :3], ref2[:, :3])
            o = t[0] if t else tb
            i = (o + np.arange(len(got))) % len(ref)
            bad = np.nonzero((got != ref2[i]).any(axis=1))[0]
            k = int(bad[0])
            h, v = i[k] % (p["hscan"] + 1), i[k]//(p["hscan"] + 1)
            pre = "timing is right, " if t else "timing differs, "
            ctx.fail("{}: {}{} of {} pixel clocks differ from the frame; first at h={} v={}: hs,vs,de,r,g,b={} expected {} ({})".format(
                what, pre, len(bad), len(got), h, v, got[k].tolist(), ref2[i[k]].tolist(), p))
            return False
        # exact symbols, from the first control period on
        n = int(np.nonzero(de[:, 0] == 0)[0][0])
        for ch in range(3):
            e = tmds.encode(d[n:, ch], c[n:, ch], de[n:, ch])
            if not ctx.expect((e == sym[n:, ch]).all(), "{}: symbols of channel {} are not those of the DVI encoding".format(what, ch)):
                return False
    ctx.count("pixels checked", len(got))
    ctx.count("frames", len(got)//len(ref))
    ctx.count(ob.mode + " frames", len(got)//len(ref))
    if ob.s6:
        ctx.count("spartan-6 pixels", len(got))
    ctx.ev(len(got))
    return True


def raw(job, ctx, ob, sym, p, base, words, what):
    w = sym[:, 0] | (sym[:, 1] << 10) | (sym[:, 2] << 20)
    e = ob.word(base + np.arange(words)) & ((1 << 30) - 1)
    at = np.nonzero(e == w[0])[0]
    for o in at:
        x = e[(o + np.arange(len(w))) % words]
        bad = np.nonzero(x != w)[0]
        if not len(bad):
            break
    else:
        ctx.fail("{}: the symbols sent are not the words of the frame buffer in order ({})".format(
            what, "first symbols {}, no such word".format(sym[0].tolist()) if not len(at) else "differs from symbol {} on: {:#x} expected {:#x}".format(int(bad[0]), int(w[bad[0]]), int(x[bad[0]]))))
        return False
    ctx.count("raw samples", len(w))
    ctx.count("pixels checked", len(w))
    if ob.s6:
        ctx.count("spartan-6 pixels", len(w))
    ctx.ev(len(w))
    return True
