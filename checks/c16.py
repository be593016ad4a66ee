"""frame extraction: pixels to memory words"""
import numpy as np
import gw, raster, rx
from streams import *

RULE = ("video of random geometries, mode switches and signal losses (in and between frames) through the frame extraction block at random pixel/system "
        "clock ratios, for every pixel format and word width, with random reader stalls the FIFO can absorb; the delivered words must be the "
        "packed pixels of each frame, in order, the first word of each frame and no other marked; a case is a distinct frame")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "even line width; a frame holds whole memory words; horizontal blanking of at "
          "least 18 pixels; in 4:2:2 mode vsync at least 12 pixel clocks behind the last pixel of a frame (all video modes have whole lines there)", "the reader keeps up on average",
          "a memory word holds at least two pixels (the block refuses to be built otherwise)"]
# pixel clocks that must lie between the last pixel of a frame and vsync
FRONT = {"rgb": 0, "ycbcr422": 11}
MIN_EVENTS = 50000
MUST_OBSERVE = ("frames", "words", "mode switches", "signal losses", "reader stalls", "vsync edges close behind the last pixel")


def jobs(tier, seed):
    n = 16 if tier == "quick" else 200
    j = []
    for i in range(n):
        for mode, ws in (("rgb", (64, 128, 256)), ("ycbcr422", (32, 64, 128, 256))):
            for w in ws:
                for loss in (0, 1):
                    j.append(dict(name="{}-{}-{}-{}".format(mode, w, "loss" if loss else "clean", i), mode=mode, w=w, loss=loss, seed=seed + 31*i))
    return j


def run(job, ctx):
    rng = npr(job)
    mode, w = job["mode"], job["w"]
    bits = 16 if mode == "ycbcr422" else 32
    f = w//bits
    depth = int(rng.choice([64, 512, 512]))
    ratio = float(rng.choice([.55, .8, 1., 1.37, 2., 3.3]))
    fb = rx.FrameBench(ctx, rng, mode, w, depth, {"pix": 10., "sys": 10.*min(ratio, .9*f)})
    # reader: stalls shorter than the FIFO
    pat = np.concatenate([np.ones(int(rng.integers(200, 900))), np.zeros(int(rng.integers(0, depth//4)*f*.4) + 1), np.ones(300)]).astype(np.uint8)
    if rng.random() < .3:
        pat = np.ones(1, np.uint8)
    fb.ready(pat)
    geoms = []
    for _ in range(14):
        if not geoms or rng.random() < .5:
            g = rx.capture_geometry(rng, f)
            ctx.count("mode switches")
        geoms.append(g)
    v = rx.Video(rng, mode, geoms)
    rows = np.concatenate(v.rows)
    if rng.random() < .4:
        # vsync right behind the last pixel of the frame (no vertical front porch)
        lo = FRONT[mode]
        act = np.nonzero(rows[:, 2])[0]
        for r in np.nonzero((rows[1:, 1] == 1) & (rows[:-1, 1] == 0))[0] + 1:
            a = act[np.searchsorted(act, r) - 1]
            if a < r:
                rows[min(r, a + 1 + lo + int(rng.choice([0, 0, 1, 2, 3, 5]))):r, 1] = 1
                ctx.count("vsync edges close behind the last pixel")
    valid = np.ones(len(rows), np.int64)
    valid[:int(rng.integers(0, 40))] = 0
    if job["loss"]:
        for _ in range(5):
            x = int(rng.integers(0, len(rows) - 10))
            valid[x:x + int(rng.choice([1, 2, 3, 5, 30, 400]))] = 0
            ctx.count("signal losses")
    rows[:, 0] = valid
    # some idle time first: the FIFO comes out of reset
    fb.b.ticks(int(rng.integers(20, 60)), "pix")
    d = fb.b.drive(fb.ins, rows, "pix")
    while fb.b.left(d):
        fb.b.ticks(2000, "pix")
    rowsend = rows[-1:].copy()
    rowsend[:, :3] = 0
    fb.b.drive(fb.ins, rowsend, "pix")
    fb.b.ticks(400 + 4*depth, "sys")
    fb.take()
    ctx.count("reader stalls", int((pat == 0).any()))
    if fb.b.read("overflow"):
        ctx.count("overflows")
        return
    # expected: frames as delimited by vsync; the first one begins before any vsync (no marker)
    exp = []
    vs = np.nonzero((rows[1:, 1] == 1) & (rows[:-1, 1] == 0))[0] + 1
    cuts = [0] + vs.tolist() + [len(rows)]
    fr, pos, sofs = [], 0, []
    offs = np.cumsum([0] + [len(r) for r in v.rows])
    k = 0
    for a, b in zip(cuts[:-1], cuts[1:]):
        act = np.nonzero((rows[a:b, 2] == 1) & (rows[a:b, 0] == 1))[0] + a
        total = int((rows[a:b, 2] == 1).sum())
        n = len(act)//f
        whole = len(act) == total and total > 0
        if total:
            # active pixels between two vsyncs belong to one frame of the raster
            fi = int(np.searchsorted(offs, act[0] if len(act) else a, side="right")) - 1
            if len(act) == 0:
                exp.append((0, None, a))
            elif whole or mode == "rgb":
                if whole:
                    s = v.frames[fi]
                else:
                    s = (rows[act, 3] << 16) | (rows[act, 4] << 8) | rows[act, 5]
                exp.append((n, rx.pack(s, bits, w), a))
            else:
                exp.append((n, None, a))
    got = fb.words
    p = 0
    pending = False          # a start-of-frame marker waits for its word (frame without words)
    for i, (n, ws, a) in enumerate(exp):
        g = got[p:p + n]
        sof = pending or a > 0
        if not ctx.expect(len(g) == n, "{}: frame {} of {} delivered {} of {} words".format(job["name"], i, len(exp), len(g), n)):
            return
        if n:
            m = [x[0] for x in g]
            if not ctx.expect(m == [1 if sof else 0] + [0]*(n - 1), "{}: frame {}: start-of-frame markers at words {}, expected on the first only".format(
                    job["name"], i, [j for j, x in enumerate(m) if x])):
                return
            pending = False
            if ws is not None:
                bad = [j for j in range(n) if g[j][1] != ws[j]]
                if bad:
                    j = bad[0]
                    ctx.fail("{}: frame {} word {} is {:#x}, expected {:#x} ({} of {} words differ)".format(job["name"], i, j, g[j][1], ws[j], len(bad), n))
                    return
            ctx.count("words", n)
            ctx.ev(n*f)
            ctx.count("frames")
            ctx.state(job["name"], job["seed"], i)
        else:
            pending = sof
        p += n
    ctx.expect(p == len(got), "{}: {} more words than pixels".format(job["name"], len(got) - p))
    ctx.sample("{}: {} frames, {} words".format(job["name"], len(exp), len(got)))
    ctx.sanitizers(fb.sim)
