"""reference raster: what a display expects for a set of frame parameters"""
import numpy as np

NAMES = ["hres", "hsync_start", "hsync_end", "hscan", "vres", "vsync_start", "vsync_end", "vscan"]


def geometry(rng, hmax=40, vmax=12, big=False):
    """random legal frame parameters: 0 < res <= sync_start < sync_end <= scan (counters run 0..scan)"""
    def axis(m, lo):
        res = int(rng.integers(lo, m + 1))
        fp = int(rng.choice([0, 0, 1, 2, 3, 7]))
        ss = res + fp
        se = ss + int(rng.choice([1, 1, 2, 3, 5]))
        sc = se + int(rng.choice([0, 0, 1, 2, 3, 6]))
        return res, ss, se, sc
    h, v = axis(hmax, 1), axis(vmax, 1)
    return dict(zip(NAMES, h + v))


def resize(p, hres, vres):
    """the same porches and pulses around a picture of another size"""
    q = {n: x + (hres - p["hres"] if n[0] == "h" else vres - p["vres"]) for n, x in p.items()}
    return {n: q[n] for n in NAMES}


def slim(rng, maxpix=60000):
    """very wide or very tall frames (the counters' upper bits) of few pixels"""
    long = int(rng.choice([rng.integers(500, 1100), rng.integers(1000, 2100), rng.integers(2040, 4070)]))
    short = int(rng.integers(1, max(2, min(12, maxpix//long - 7))))
    p = geometry(rng, 4, 4)
    return resize(p, long, short) if rng.random() < .5 else resize(p, short, long)


def valid(p):
    return (0 < p["hres"] <= p["hsync_start"] < p["hsync_end"] <= p["hscan"] < 4096 and
            0 < p["vres"] <= p["vsync_start"] < p["vsync_end"] <= p["vscan"] < 4096)


def frame(p):
    """-> int64 [n][3] (hsync, vsync, de) of one frame, pixel by pixel"""
    h = np.arange(p["hscan"] + 1)
    v = np.arange(p["vscan"] + 1)
    hs = ((h >= p["hsync_start"]) & (h < p["hsync_end"])).astype(np.int64)
    vs = ((v >= p["vsync_start"]) & (v < p["vsync_end"])).astype(np.int64)
    de = ((v < p["vres"])[:, None] & (h < p["hres"])[None, :]).astype(np.int64)
    return np.stack([np.tile(hs, len(v)), np.repeat(vs, len(h)), de.ravel()], 1)


def size(p):
    return (p["hscan"] + 1)*(p["vscan"] + 1)


STANDARD = [   # hres, hss, hse, hscan, ... of common modes (totals minus one)
    dict(zip(NAMES, (640, 656, 752, 799, 480, 490, 492, 524))),
    dict(zip(NAMES, (800, 840, 968, 1055, 600, 601, 605, 627))),
    dict(zip(NAMES, (1280, 1390, 1430, 1649, 720, 725, 730, 749))),
    dict(zip(NAMES, (1920, 2008, 2052, 2199, 1080, 1084, 1089, 1124))),
    dict(zip(NAMES, (1024, 1048, 1184, 1343, 768, 771, 777, 805))),
]
