"""C37 genlock: a live video timing is passed through and the memory's pixels are laid over its active area"""
import numpy as np
from migen import *
from litex.soc.interconnect import stream
import gw, vout, raster
from streams import *

RULE = ("VideoOutCore with a genlock stream: live timing streams of random geometries and phases, parameters programmed before enabling at "
        "a random instant, random base, delay_base, clock ratios, FIFO depths, memory latencies and refresh stalls the FIFO covers; the output's timing must be the "
        "stream's, cycle by cycle, and from the second frame start after enabling on, the k-th active sample of a frame must show the memory word base+delay_base+k, without "
        "reads outside the frame; geometry changes of the live stream (same number of active pixels) are followed; a case is a distinct (setting, frame)")
ASSUME = ["the live stream is never held (a monitor cannot be stalled); front porch and sync long enough to fill the FIFO", "length is the active area plus delay_base",
          "parameters are programmed once, before enabling: in genlock mode the first parameter set stays"]
MIN_EVENTS = 200000
MUST_OBSERVE = ("frames shown", "refresh stalls", "delay_base used", "enabled during active video", "geometry changes", "ycbcr422", "rgb")


def jobs(tier, seed):
    n = 40 if tier == "quick" else 700
    j = [dict(name="{}-{}".format(m, i), mode=m, seed=seed + 23*i) for i in range(n) for m in ("rgb", "ycbcr422")]
    return j + [dict(name="{}-big-{}".format(m, i), mode=m, seed=seed + 23*i, big=i % 2 + 1, cost=5) for i in range(max(2, n//20)) for m in ("rgb", "ycbcr422")]


def run(job, ctx):
    from litevideo.output.common import frame_timing_layout
    rng = npr(job)
    mode = job["mode"]
    ctx.count(mode)
    big = job.get("big", 0)
    cd = "sys" if rng.random() < .15 else "pix"
    depth = int(rng.choice([16, 64, 64, 512]))
    gl = stream.Endpoint(frame_timing_layout)
    cb = vout.CoreBench(ctx, rng, mode, depth, cd, csr_width=int(rng.choice([8, 32])), genlock=gl)
    lat = int(rng.integers(1, 30 if depth > 16 else 4))            # the FIFO has to cover the latency
    cb.memory(256, 256, lat)
    need = lat + min(depth, 200) + 60             # clocks to fill the FIFO

    def geo(area=None):
        p = raster.geometry(rng, 60, 10)
        if big and area is None:
            dh, dv = (int(rng.integers(60, 100)), int(rng.integers(60, 100))) if big == 1 else (int(rng.integers(250, 330)), int(rng.integers(250, 330)))
            p = {q: x + (dh if q[0] == "h" else dv) for q, x in p.items()}
        if area is not None:
            # same number of pixels
            d = [x for x in range(1, area + 1) if area % x == 0 and x <= 400 and area//x <= 400]
            h = int(rng.choice(d))
            q = dict(p)
            for n in ("hres", "hsync_start", "hsync_end", "hscan"):
                q[n] = p[n] + h - p["hres"]
            for n in ("vres", "vsync_start", "vsync_end", "vscan"):
                q[n] = p[n] + area//h - p["vres"]
            p = q
        # blanking after the start of the vertical sync
        while (p["vscan"] - p["vsync_start"])*(p["hscan"] + 1) < need:
            p["vscan"] += 1
            if rng.random() < .3:
                p["vsync_end"] += 1
        if rng.random() < .4:
            p["vsync_end"] = p["vscan"]
        return p
    p = geo()
    area = p["hres"]*p["vres"]
    wb = 1 << cb.shift
    db = int(rng.choice([0, 0, 1, rng.integers(1, 300), 1 << int(rng.integers(8, cb.aw - 1)), rng.integers(1, 1 << (cb.aw - 1))]))
    if db:
        ctx.count("delay_base used")
    base = int(rng.integers(0, (1 << cb.aw) - area - db))*wb + int(rng.integers(0, wb))
    sched = [(p, int(rng.integers(6, 12)) if not big else 6)]
    for _ in range(2 - big//2):
        sched.append((geo(area), int(rng.integers(3, 7)) if not big else 3))
        ctx.count("geometry changes")
    starts, rows, frames = [], [], []
    n = 0
    for q, k in sched:
        f = raster.frame(q)
        for _ in range(k):
            starts.append(n)
            frames.append(f)
            rows.append(f)
            n += len(f)
    R = np.concatenate(rows)
    R = np.concatenate([np.ones((n, 1), np.int64), R], 1)
    # power up and program while the stream runs
    d = cb.b.drive([gl.valid, gl.hsync, gl.vsync, gl.de], R, cd)
    cb.b.ticks(int(rng.integers(1, 100)), cd)
    name = [w for w in cb.top.words if w.endswith("delay_base")]
    if len(name) != 1:
        raise Bug("no delay_base register")
    cb.b.write(name[0], db)
    cb.set(base=base, length=(area + db)*wb, **p)
    cb.b.ticks(int(rng.integers(1, 2*len(rows[0]))), cd)
    if d[3] >= starts[3]:
        # programming took long: start the stream again
        d = cb.b.drive([gl.valid, gl.hsync, gl.vsync, gl.de], R, cd)
        cb.b.ticks(int(rng.integers(1, 2*len(rows[0]))), cd)
    a0 = cb.b.collect(cd)
    # before enabling: the DMA is idle and the memory is not read
    ctx.expect(not a0[:, 6].any(), "{}: the memory is read before enabling".format(job["name"]))
    pos0 = d[3]
    if R[pos0, 3]:
        ctx.count("enabled during active video")
    cb.enable()
    on = d[3]
    def to(pos):
        if min(pos, n - 1) > d[3]:
            cb.b.ticks(min(pos, n - 1) - d[3], cd)
    k = int(np.searchsorted(starts, d[3], "right"))
    for k in range(k, len(starts)):
        to(starts[k])
        act = np.nonzero(frames[k][:, 2])[0]
        for _ in range(int(rng.choice([0, 1]))):
            # a refresh in the active area, covered by the FIFO
            to(int(starts[k] + act[0] + rng.integers(0, len(act))) + 1)
            cb.sim[cb.dram.hold] = 1
            cb.sim.settle()
            to(d[3] + int(rng.integers(1, max(2, (min(depth, 200) - lat)//2 - 4))))
            cb.sim[cb.dram.hold] = 0
            cb.sim.settle()
            ctx.count("refresh stalls")
    to(n - 1)
    a = np.concatenate([a0, cb.b.collect(cd)])
    a = a[-d[3]:]                       # row i: stream position i
    m = len(a)
    nm = job["name"]
    # timing passed through
    bad = np.nonzero((a[:, 2:5] != R[:m, 1:4]).any(axis=1))[0]
    ctx.ev(m)
    if len(bad):
        i = int(bad[0])
        ctx.fail("{}: hsync,vsync,de of the output are {} while the live stream has {} (clock {}; enabled at {})".format(nm, a[i, 2:5].tolist(), R[i, 1:4].tolist(), i, on))
        return
    # memory reads
    c = cb.cmds(a)
    w0 = (base >> cb.shift)
    o = (c < w0 + db) | (c >= w0 + db + area)
    ctx.expect(not o.any(), lambda: "{}: word {:#x} read, the frame is {:#x}..{:#x}".format(nm, int(c[o][0]), w0 + db, w0 + db + area - 1))
    exp = cb.word(base + db*wb, area)
    first = int(np.searchsorted(starts, on, "right")) + 1
    # the frame in between is complete or has no picture
    if first < len(starts):
        x = a[starts[first - 1]:starts[first]]
        x = x[(x[:, 4] == 1) & (x[:, 0] == 1)]
        ctx.expect(len(x) == 0 or len(x) == area and (x[:, 5] == exp).all(), "{}: the first frame after enabling shows a part of a picture, or a shifted one".format(nm))
        ctx.count("pictures in the first frame", int(len(x) > 0))
    for k in range(first, len(starts)):
        if starts[k] + len(frames[k]) > m:
            break
        x = a[starts[k]:starts[k] + len(frames[k])]
        act = frames[k][:, 2] == 1
        if not x[:, 0].all():
            i = int(np.nonzero(x[:, 0] == 0)[0][0])
            ctx.fail("{}: no output at clock {} of frame {} (depth {}, latency {}, {})".format(nm, i, k, depth, lat, p))
            return
        e = np.nonzero(x[act, 5] != exp)[0]
        if len(e):
            i = int(e[0])
            w = cb.which(int(x[act, 5][i]), base)
            ctx.fail("{}: active sample {} of frame {} shows {}, expected word {:#x} (base {:#x}, delay_base {}, enabled at clock {} = frame {})".format(
                nm, i, k, w, w0 + db + i, base, db, on, first - 3))
            return
        ctx.count("frames shown")
        ctx.state(nm, k)
    ctx.expect(cb.sim[cb.dram.lost] == 0, "memory words arrived with no room for them")
    ctx.sample("{}: {} base={:#x} delay_base={} enabled at {} -> {} frames judged".format(nm, p, base, db, on, max(0, len(starts) - first)))
    ctx.sanitizers(cb.sim)
