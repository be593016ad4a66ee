"""terminal: VGA timing and picture"""
import numpy as np
from migen import *
import gw
from streams import *

RULE = ("whole frames of the terminal with random text, colours and fonts, static and while software rewrites them; sync pulses must have the documented "
        "lengths in every line and frame, and every one of the 640x480 pixels of a frame the colour that text, attribute and font bytes select, black "
        "outside; a case is a distinct (character, attribute, font line) displayed")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics",
          "in a character cell whose bytes are rewritten within 64 clocks of its display, the colours are not judged"]
MIN_EVENTS = 3000000
MUST_OBSERVE = ("frames", "lines", "pixels judged", "concurrent writes", "default screen frames", "font rewrites", "external pads")
PAL = np.array([0x000000, 0x0000aa, 0x00aa00, 0x00aaaa, 0xaa0000, 0xaa00aa, 0xaa5500, 0xaaaaaa,
                0x555555, 0x5555ff, 0x55ff55, 0x55ffff, 0xff5555, 0xff55ff, 0xffff55, 0xffffff])
W, H = 640, 480
LINE, LINES = 800, 521
HS, HBP = 96, 48
VS, VBP = 2, 29
FONT = 4800


def jobs(tier, seed):
    n = 6 if tier == "quick" else 60
    return ([dict(name="default", kind="default", seed=seed, cost=3)] +
            [dict(name="static-{}".format(i), kind="static", seed=seed + i) for i in range(n)] +
            [dict(name="live-{}".format(i), kind="live", seed=seed + i, cost=2) for i in range(n)] +
            [dict(name="blank", kind="blank", seed=seed)])


def picture(mem):
    """480x640 colours of a memory image"""
    t = mem[:4800].reshape(30, 80, 2)
    f = mem[FONT:FONT + 4096].reshape(256, 16)
    g = f[t[:, :, 0]]                                   # 30,80,16
    bits = (g[..., None] >> np.arange(7, -1, -1)) & 1   # 30,80,16,8
    fg, bg = PAL[t[:, :, 1] & 15], PAL[t[:, :, 1] >> 4]
    px = np.where(bits == 1, fg[:, :, None, None], bg[:, :, None, None])
    return px.transpose(0, 2, 1, 3).reshape(480, 640)


class Pads:
    def __init__(self):
        self.red, self.green, self.blue = Signal(8), Signal(8), Signal(8)
        self.hsync, self.vsync = Signal(), Signal()


def run(job, ctx):
    from litevideo.terminal.core import Terminal
    rng = npr(job)
    kind = job["kind"]
    pads = Pads() if job["seed"] % 2 else None
    if pads is not None:
        ctx.count("external pads")
    kw = dict(pads=pads) if pads is not None else {}
    if kind in ("blank", "static", "live"):
        dut = ctx.build(Terminal, font_filename="", screen_init_filename="", **kw)
    else:
        dut = ctx.build(Terminal, **kw)
    o = pads if pads is not None else dut
    sim = ctx.build(gw.Sim, dut, clocks=("sys", "vga"))
    outs = [o.hsync, o.vsync, o.red, o.green, o.blue]
    b = dut.bus
    ins = [b.cyc, b.stb, b.we, b.adr, b.dat_w, b.sel]
    mp, ms = sim.mask("vga"), sim.mask("sys")
    mem = np.zeros(8896, np.int64)
    if kind == "default":
        import os, litevideo.terminal.core as tc
        d = os.path.dirname(tc.__file__)
        mem[:] = np.frombuffer(open(d + "/screen-init.bin", "rb").read() + open(d + "/cp437.bin", "rb").read(), np.uint8)
        ctx.count("default screen frames")

    def bus_writes(lst, gap=0):
        """2 cycles per write (no gap): rows for run_trace"""
        r = np.zeros((len(lst)*(2 + gap), 6), np.int64)
        for k, (a, v) in enumerate(lst):
            r[k*(2 + gap):k*(2 + gap) + 2] = (1, 1, 1, a, v, 1)
        return r
    if kind in ("static", "live"):
        # fill all of the memory before the display starts (the vga clock stands still)
        a = rng.permutation(8896)
        v = rng.integers(0, 256, 8896)
        if rng.random() < .5:
            v[a >= FONT] = rng.choice([0, 255, 0x80, 1, 0xaa], (a >= FONT).sum())
        sim.run_trace(ms, ins, bus_writes(list(zip(a.tolist(), v.tolist()))), [])
        mem[a] = v
    nfr = 3
    N = LINE*LINES*nfr + 3*LINE
    st = np.zeros((N, 6), np.int64)
    log = []            # (time, adr, value)
    if kind == "live":
        t = 1000
        while t < N - 1000:
            x = rng.random()
            if x < .3:
                blk = [(int(rng.integers(0, 4800)), int(rng.integers(0, 256))) for i in range(int(rng.integers(1, 200)))]
            elif x < .6:
                c = int(rng.integers(0, 256))
                blk = [(FONT + 16*c + i, int(rng.integers(0, 256))) for i in range(16)]
                ctx.count("font rewrites")
            else:
                s0 = int(rng.integers(0, 4640))
                blk = [(s0 + i, int(rng.integers(0, 256))) for i in range(160)]
            gap = int(rng.choice([0, 0, 1, 7]))
            r = bus_writes(blk, gap)
            r = r[:N - 1000 - t]
            st[t:t + len(r)] = r
            log += [(t + k*(2 + gap) + 1, a, v) for k, (a, v) in enumerate(blk) if t + (k + 1)*(2 + gap) <= N - 1000]
            t += len(r) + int(rng.integers(1, 20000))
        ctx.count("concurrent writes", len(log))
    out = sim.run_trace(mp | ms, ins, st, outs)
    hs, vs = out[:, 0], out[:, 1]
    rgb = (out[:, 2] << 16) | (out[:, 3] << 8) | out[:, 4]
    name = job["name"]
    # lines
    fall = np.nonzero((hs[:-1] == 1) & (hs[1:] == 0))[0] + 1
    rise = np.nonzero((hs[:-1] == 0) & (hs[1:] == 1))[0] + 1
    if len(fall) < LINES:
        raise_bug("{}: {} lines in {} clocks".format(name, len(fall), N))
    d = np.diff(fall)
    if (d != LINE).any():
        ctx.fail("{}: a line takes {} clocks instead of {}".format(name, d[d != LINE][0], LINE))
        return
    r2 = rise[np.searchsorted(rise, fall[:-1])]
    w = r2 - fall[:-1]
    if (w != HS).any():
        ctx.fail("{}: hsync pulse of {} clocks instead of {}".format(name, w[w != HS][0], HS))
        return
    # the first line starts with reset
    fall = np.concatenate([[fall[0] - LINE], fall]) if fall[0] >= LINE else fall
    ctx.count("lines", len(fall))
    # frames: vsync looked at in the middle of each line
    fl = fall[fall + LINE <= N]
    v = vs[fl + 400]
    if len(set(map(int, vs[np.add.outer(fl, np.arange(2, LINE - 2)).ravel()].reshape(len(fl), -1).max(1) -
                   vs[np.add.outer(fl, np.arange(2, LINE - 2)).ravel()].reshape(len(fl), -1).min(1)))) != 1:
        ctx.fail("{}: vsync changes in the middle of a line".format(name))
        return
    vf = np.nonzero((v[:-1] == 1) & (v[1:] == 0))[0] + 1
    if v[0] == 0:
        vf = np.concatenate([[0], vf])
    if len(vf) < 2 or (np.diff(vf) != LINES).any():
        ctx.fail("{}: frames of {} lines instead of {}".format(name, np.diff(vf).tolist(), LINES))
        return
    # judge pictures
    ti = 0
    cur = mem.copy()
    log.sort()
    lt = np.array([x[0] for x in log] + [1 << 60])
    for f in vf:
        if f + LINES > len(fl):
            break
        lows = v[f:f + LINES]
        if lows[:VS].any() or not lows[VS:].all():
            ctx.fail("{}: vsync low for {} lines instead of {}".format(name, int((lows == 0).sum()), VS))
            return
        t0 = fl[f]
        img = rgb[t0:t0 + LINE*LINES].reshape(LINES, LINE)
        act = np.zeros((LINES, LINE), bool)
        act[VS + VBP:VS + VBP + H, HS + HBP:HS + HBP + W] = True
        stray = img[~act]
        if stray.any():
            k = np.argwhere((img != 0) & ~act)[0]
            ctx.fail("{}: colour {:06x} outside of the picture, line {} clock {}".format(name, img[tuple(k)], *k))
            return
        pic = img[VS + VBP:VS + VBP + H, HS + HBP:HS + HBP + W]
        if not log:
            exp = picture(cur)
            skip = np.zeros((H, W), bool)
        else:
            exp = np.empty((H, W), np.int64)
            skip = np.zeros((H, W), bool)
            for y in range(H):
                ta = t0 + (VS + VBP + y)*LINE
                # memory at the start of the line, and the changes during it
                while lt[ti] < ta + HS:
                    cur[log[ti][1]] = log[ti][2]
                    ti += 1
                k = ti
                exp[y], touched = line_of(cur, y)
                while lt[k] < ta + LINE:
                    t, a, val = log[k]
                    # the cells that depend on this byte
                    row = y//16
                    if a < 4800:
                        cells = [(a % 160)//2] if a//160 == row else []
                    else:
                        cells = np.nonzero(cur[row*160:row*160 + 160:2] == (a - FONT)//16)[0].tolist() if (a - FONT) % 16 == y % 16 else []
                    for c in cells:
                        tc_ = ta + HS + HBP + 8*c
                        if t < tc_ - 64:
                            pass
                        elif t > tc_ + 8:
                            continue
                        else:
                            skip[y, 8*c:8*c + 8] = True
                    if any(t < ta + HS + HBP + 8*c - 64 for c in cells) or a < 4800 and a % 2 == 0 and a//160 == row:
                        # recompute the cells right of it
                        tmp = cur.copy()
                        for q in range(ti, k + 1):
                            tmp[log[q][1]] = log[q][2]
                        for c in range(80):
                            tc_ = ta + HS + HBP + 8*c
                            if t < tc_ - 64:
                                exp[y, 8*c:8*c + 8] = cell_of(tmp, y, c)
                    k += 1
        bad = np.argwhere((pic != exp) & ~skip)
        if len(bad):
            y, x = bad[0]
            ctx.fail("{}: pixel ({}, {}) is {:06x}, must be {:06x}: character {:02x}, attribute {:02x}, font line {} ({} pixels wrong)".format(
                name, x, y, pic[y, x], exp[y, x], cur[y//16*160 + x//8*2], cur[y//16*160 + x//8*2 + 1], y % 16, len(bad)))
            return
        ctx.count("frames")
        ctx.count("pixels judged", int((~skip).sum()))
        ctx.ev(int((~skip).sum()))
        c = cur[:4800].reshape(-1, 2)
        ctx.states_bulk((int(a), int(b), i) for a, b in c[:2400:3] for i in range(0, 16, 5))
    ctx.sample("{}: {} lines, {} frames, {} writes meanwhile".format(name, len(fl), len(vf), len(log)))
    ctx.sanitizers(sim)


def cell_of(mem, y, c):
    a = y//16*160 + 2*c
    f = mem[FONT + 16*mem[a] + y % 16]
    at = mem[a + 1]
    bits = (f >> np.arange(7, -1, -1)) & 1
    return np.where(bits == 1, PAL[at & 15], PAL[at >> 4])


def line_of(mem, y):
    t = mem[y//16*160:y//16*160 + 160].reshape(80, 2)
    f = mem[FONT + 16*t[:, 0] + y % 16]
    bits = (f[:, None] >> np.arange(7, -1, -1)) & 1
    return np.where(bits == 1, PAL[t[:, 1] & 15][:, None], PAL[t[:, 1] >> 4][:, None]).ravel(), None


def raise_bug(msg):
    import fw
    raise fw.Bug(msg)
