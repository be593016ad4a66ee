"""bench for the frame capture path (pixels -> memory words)"""
import numpy as np
from migen import *
import gw, bench, raster, golden


class Wide(Module):
    """narrow views of a wide signal (least significant first)"""
    def __init__(self, sig, w=32):
        n = (len(sig) + w - 1)//w
        self.parts = [Signal(min(w, len(sig) - i*w)) for i in range(n)]
        self.comb += [p.eq(sig[i*w:i*w + len(p)]) for i, p in enumerate(self.parts)]


def wide_rows(parts_cols, w=32):
    """columns of narrow parts -> python ints"""
    out = [0]*len(parts_cols)
    a = parts_cols.tolist()
    for k, r in enumerate(a):
        v = 0
        for i, x in enumerate(r):
            v |= x << (w*i)
        out[k] = v
    return out


def pack(pix, bits, width):
    """pixels -> words, first pixel in the most significant lane; whole words only"""
    f = width//bits
    n = len(pix)//f
    p = np.asarray(pix, object)[:n*f].reshape(n, f) if n else np.zeros((0, f), object)
    out = []
    for r in p.tolist():
        v = 0
        for x in r:
            v = (v << bits) | int(x)
        out.append(v)
    return out


def encode_line(mode, r, g, b):
    """one line of pixels -> memory samples"""
    if mode == "rgb":
        return (r << 16) | (g << 8) | b
    y, cb, cr = golden.rgb2ycbcr(r, g, b)
    c = np.empty_like(y)
    c[0::2] = (cb[0::2] + cb[1::2]) >> 1
    c[1::2] = (cr[0::2] + cr[1::2]) >> 1
    return y | (c << 8)


def capture_geometry(rng, pixels_mult, hmax=40, vmax=8, blank=18, hmin=2):
    """raster with even width, active pixel count a multiple of pixels_mult and realistic (long) blanking"""
    while True:
        p = raster.geometry(rng, hmax, vmax)
        p["hres"] = max(hmin, p["hres"] & ~1)
        if (p["hres"]*p["vres"]) % pixels_mult:
            continue
        fp = int(rng.integers(1, 8))
        p["hsync_start"] = p["hres"] + fp
        p["hsync_end"] = p["hsync_start"] + int(rng.integers(1, 9))
        p["hscan"] = max(p["hsync_end"] + int(rng.integers(0, 9)), p["hres"] + blank - 1)
        p["vsync_start"] = max(p["vsync_start"], p["vres"] + 1)
        p["vsync_end"] = p["vsync_start"] + int(rng.integers(1, 3))
        p["vscan"] = p["vsync_end"] + int(rng.integers(0, 3))
        assert raster.valid(p)
        return p


class Video:
    """a stretch of decoded video: rows (valid, vsync, de, r, g, b) and what belongs in memory"""
    def __init__(self, rng, mode, geoms, smooth=.3, extremes=.2):
        self.rows, self.frames = [], []     # frames: list of memory samples per frame
        bits = 16 if mode == "ycbcr422" else 32
        for p in geoms:
            f = raster.frame(p)
            n = len(f)
            px = rng.integers(0, 256, (n, 3))
            if rng.random() < smooth:
                px = np.repeat(px, 4, axis=0)[:n]
            k = rng.random()
            if k < extremes:
                px = np.where(rng.random((n, 3)) < .5, 0, 255)
            self.rows.append(np.concatenate([np.ones((n, 1), np.int64), f[:, 1:2], f[:, 2:3], px], 1))
            act = np.nonzero(f[:, 2])[0].reshape(p["vres"], p["hres"])
            s = [encode_line(mode, *px[l].T) for l in act]
            self.frames.append(np.concatenate(s))
        self.bits = bits


class FrameBench:
    def __init__(self, ctx, rng, mode, width, depth, periods, metastab=.5, jitter=.2, csr_width=8):
        from litevideo.input.analysis import FrameExtraction
        self.ctx, self.mode, self.width = ctx, mode, width
        dut = self.dut = ctx.build(FrameExtraction, width, depth, mode)
        self.w = Wide(dut.frame.pixels)
        self.host = bench.Host(dut, csr_width, [self.w])
        self.sim = ctx.build(gw.Sim, self.host, clocks=("sys", "pix"))
        f = dut.frame
        self.b = bench.Bench(self.sim, periods, rng, [f.valid, f.ready, f.sof] + self.w.parts, self.host, jitter=jitter, metastab=metastab)
        self.ins = [dut.valid_i, dut.vsync, dut.de, dut.r, dut.g, dut.b]
        self.words = []        # (sof, word, sys cycle)

    def ready(self, pat):
        self.b.drive([self.dut.frame.ready], np.asarray(pat)[:, None], "sys", cyclic=True)

    def take(self):
        a = self.b.collect("sys")
        t0 = self.b.nticks["sys"] - len(a)
        # held stable while stalled
        st = (a[:-1, 0] == 1) & (a[:-1, 1] == 0)
        bad = st & ((a[1:, 0] == 0) | (a[1:, 2:] != a[:-1, 2:]).any(axis=1))
        if bad.any():
            self.ctx.fail("captured word withdrawn or changed while the reader stalls")
        k = np.nonzero((a[:, 0] == 1) & (a[:, 1] == 1))[0]
        w = wide_rows(a[k][:, 3:])
        self.words += list(zip(a[k, 2].tolist(), w, (k + t0).tolist()))
        return len(k)
