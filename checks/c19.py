"""capture slots: life cycle, completeness, interrupts, no frame skipped"""
import numpy as np
import gw, capdma
from streams import *

RULE = ("capture DMA fed with endless self-identifying frames (any length, gap and stall) while a software model arms, polls, consumes and re-arms slots over "
        "the CSR bus at random instants and memory stalls at random; each completed slot must hold one frame's first frame_size words, all of them written before "
        "completion, in the slot that was armed, with the end address reported; a frame may only be skipped if no slot is armed; the interrupt "
        "equals the enabled completed slots; a case is a distinct completion")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "software changes a slot only while it is not armed, address first",
          "frame_size >= 1 word and not changed while slots are armed"]
MIN_EVENTS = 100000
MUST_OBSERVE = ("completions", "frames skipped without an armed slot", "back-to-back captures", "interrupt cycles", "interrupt changes", "enabled interrupts", "frame size changes", "slot 0 completions", "slot 1 completions", "slot 4 completions", "words offered without an armed slot",
                "frames longer than the slot", "all slots completed", "completions of more than 255 words", "completions of more than 4095 words", "completions of more than 65535 words", "completions of more than 1000000 words")


def jobs(tier, seed):
    n = 10 if tier == "quick" else 150
    j = []
    for i in range(n):
        for sw in ("fast", "slow", "lazy"):
            for mem in ("fast", "stall", "slow"):
                j.append(dict(name="{}-{}-{}".format(sw, mem, i), sw=sw, mem=mem, seed=seed + 41*i))
        # frames of real sizes
        if i < 4 or tier != "quick":
            for mem in ("fast", "stall"):
                j.append(dict(name="big{}-{}-{}".format(i % 4, mem, i), sw="big", mem=mem, seed=seed + 41*i, big=i % 4))
        if i < 1 or tier != "quick" and i < 6:
            j.append(dict(name="big4-fast-{}".format(i), sw="big", mem="fast", seed=seed + 41*i, big=4, cost=20))
    return j


BIG = [(200, 700), (900, 5000), (4096, 10000), (65000, 140000), (1036800, 1100000)]


def setup(job, ctx, rng):
    nslots = int(rng.choice([1, 2, 2, 3, 4, 5, 7]))
    dw = int(rng.choice([32, 64, 128]))
    aw = int(rng.choice([16, 20, 24, 26, 29])) if job["sw"] != "big" else int(rng.choice([20, 24] if job["big"] < 4 else [24, 26]))
    if job.get("huge"):
        aw = int(rng.choice([26, 29]))
    cw = int(rng.choice([8, 32]))
    db = capdma.DMABench(ctx, rng, nslots, dw, aw, cw)
    mem = {"fast": (256, 256, 1), "stall": (150, 200, int(rng.integers(0, 30))), "slow": (70, 256, 3)}[job["mem"]]
    db.settings(dram_p_cmd=mem[0], dram_p_dat=mem[1], dram_lat=mem[2])
    return db


def place(rng, aw, size):
    """any buffer, often across an odd multiple of a power of two"""
    words = 1 << aw
    if rng.random() < .4:
        k = int(rng.integers(3, aw))
        a = (2*int(rng.integers(0, 1 << (aw - k - 1))) + 1 << k) - int(rng.integers(0, size + 1))
        if 0 <= a < words - size - 64:
            return a
    return int(rng.integers(0, words - size - 64))


def source(db, rng, size, exact=None):
    k = rng.random()
    short = rng.random() < .2 if exact is None else not exact
    flen = max(1, size - int(rng.integers(1, size + 1))) if short else size + int(rng.choice([0, 0, 0, 1, 5, 30]))
    db.settings(src_flen=max(2, flen), src_fmask=0 if k < .7 else 7, src_p_valid=int(rng.choice([256, 256, 160, 40])),
                src_gap=int(rng.choice([0, 0, 1, 2, 3, 40])), src_gmask=int(rng.choice([0, 0, 0, 15])), src_enable=1)


def run(job, ctx):
    rng = npr(job)
    db = setup(job, ctx, rng)
    wb = db.dw//8
    n = db.nslots
    enable = 0
    big = job["sw"] == "big"

    def newsize():
        if big:
            return int(rng.integers(*BIG[job["big"]]))
        return int(rng.choice([rng.integers(1, 5), rng.integers(2, 60)]))
    size = int(rng.integers(2, 40)) if not big else newsize()
    sizes = []          # (cycle from which it may apply, words)
    db.w("frame_size", size*wb)
    sizes.append((db.t, size))
    db.run(int(rng.integers(1, 30)))
    source(db, rng, size)
    state = [0]*n
    react = {"fast": 6, "slow": 80, "lazy": 400, "big": size//2 + 2}[job["sw"]]
    for k in range(220 if not big else (60, 60, 40, 24, 4)[job["big"]]):
        db.run(int(rng.integers(1, react)))
        x = rng.random()
        if x < .12:
            enable = int(rng.integers(0, 1 << n))
            db.w("enable", enable)
        if x > .93:
            source(db, rng, size)
        elif x > .88:
            # the events are levels: acknowledging them has no effect
            db.w("pending", int(rng.integers(0, 1 << n)))
        if x > .985:
            hold = int(rng.integers(5, 100))
            db.settings(dram_hold=1)
            db.run(hold)
            db.settings(dram_hold=0)
        st = [db.r("slot{}_status".format(i)) for i in range(n)]
        for i in range(n):
            if st[i] != 1:
                if rng.random() < (.9 if job["sw"] == "fast" else .6):
                    words = 1 << db.aw
                    a = place(rng, db.aw, size)
                    db.w("slot{}_address".format(i), a*wb)
                    db.w("slot{}_status".format(i), 1)
                elif rng.random() < .2:
                    db.w("slot{}_status".format(i), 0)
        if rng.random() < .06:
            # new size: wait until nothing is armed
            for _ in range(400):
                st = [db.r("slot{}_status".format(i)) for i in range(n)]
                if 1 not in st:
                    break
                db.run(20 + size//20)
            else:
                continue
            ctx.count("all slots completed")
            size = newsize()
            db.w("frame_size", size*wb)
            sizes.append((db.t, size))
            ctx.count("frame size changes")
            source(db, rng, size)
            db.run(3)
    # liveness: every armed slot gets its frame
    db.settings(src_flen=max(2, size + 2), src_fmask=0, src_p_valid=256, src_gap=2, src_gmask=0, src_enable=1, dram_hold=0, dram_p_cmd=256, dram_p_dat=256, dram_lat=1)
    for _ in range(4*n):
        if all(db.r("slot{}_status".format(i)) != 1 for i in range(n)):
            break
        db.run(4*size + 300)
    else:
        ctx.fail("{}: an armed slot does not complete although frames of {} words arrive".format(job["name"], size + 2))
        return
    db.settings(src_enable=0)
    a = db.all()
    check(job, ctx, db, a, sizes)
    ctx.sanitizers(db.sim)


def check(job, ctx, db, a, sizes):
    n, S, A, P = db.nslots, db.c_st, db.c_ad, db.c_p
    name = job["name"]
    wb, sh = db.dw//8, db.shift
    t0 = 0
    acc = np.nonzero((a[:, 0] == 1) & (a[:, 1] == 1))[0]
    aidx, asof = a[acc, 3], a[acc, 2]
    wr = np.nonzero(a[:, 4] == 1)[0]
    st = a[:, S:S + n]
    ctx.expect(db.sim[db.dram.missed] == 0, "{}: the controller fetched {} words that were not offered".format(name, db.sim[db.dram.missed]))
    ctx.ev(len(a))
    # interrupt line, checked through the enable register value at each cycle


    # completions: status becomes 2 by the device
    comp = []
    for i in range(n):
        t = np.nonzero((st[:-1, i] == 1) & (st[1:, i] == 2))[0]
        comp += [(int(x) + 1, i) for x in t]          # first cycle in which it reads 2
    comp.sort()
    wpos = 0
    used_upto = -1            # index into acc
    captured = []
    for t, i in comp:
        size = [s for c, s in sizes if c <= t][-1]
        base = int(a[t - 1, A + i]) >> sh
        if not ctx.expect(wpos + size <= len(wr) and wr[wpos + size - 1] < t,
                          lambda: "{}: slot {} completed at cycle {} before its {} words were written (only {})".format(
                              name, i, t, size, int((wr[wpos:] < t).sum()))):
            return
        w = wr[wpos:wpos + size]
        adr = a[w, 5]
        exp = (base + np.arange(size)) & ((1 << db.aw) - 1)
        bad = np.nonzero(adr != exp)[0]
        if len(bad):
            k = int(bad[0])
            ctx.fail("{}: word {} of the frame for slot {} was written to {:#x}, expected {:#x}".format(name, k, i, int(adr[k]), int(exp[k])))
            return
        ctx.expect((a[w, 6] == (1 << wb) - 1).all(), "{}: partial write".format(name))
        # content: consecutive stream words from a start of frame
        p0 = a[w, P]
        inv = pow(capdma.bench.MULT, -1, 1 << 32)
        k0 = np.searchsorted(acc, w[0]) - 1
        # find the accepted word that carries the first data
        c = k0
        parts = a[w[0], P:P + db.np]
        while c > used_upto and not all(capdma.part(int(aidx[c]), q) == parts[q] for q in range(db.np)):
            c -= 1
        if not ctx.expect(c > used_upto, "{}: slot {}: the first word written at cycle {} is no word of the stream after the previous frame".format(name, i, int(w[0]))):
            return
        if not ctx.expect(asof[c] == 1, "{}: slot {}: capture begins with word {} of the stream, which does not start a frame".format(name, i, int(aidx[c]))):
            return
        idx = aidx[c:c + size]
        if not ctx.expect(len(idx) == size, "{}: truncated".format(name)):
            return
        for q in range(db.np):
            e = (idx*capdma.bench.MULT + q*0x5bd1e995 + (idx >> 7)) & capdma.M32
            b = np.nonzero(a[w, P + q] != e)[0]
            if len(b):
                k = int(b[0])
                ctx.fail("{}: slot {}: word {} at {:#x} is not the stream's word {} (after word {})".format(name, i, k, int(adr[k]), int(idx[k]), int(idx[0])))
                return
        # the slot was armed when the frame began, and all the time since
        s = int(acc[c])
        ctx.expect((st[s:t, i] == 1).all(), "{}: slot {} was not armed while its frame was stored".format(name, i))
        # end address
        end = int(a[t, A + i]) >> sh
        ctx.expect(end == (base + size) & ((1 << db.aw) - 1), lambda: "{}: slot {} reports end address {:#x}, expected {:#x}".format(name, i, end, base + size))
        captured.append((c, c + size, t, i))
        if len(captured) > 1 and captured[-2][1] == c:
            ctx.count("back-to-back captures")
        if (asof[c + 1:c + size] == 0).all() and c + size < len(asof) and asof[c + size] == 0:
            ctx.count("frames longer than the slot")
        ctx.count("completions")
        for lim in (255, 4095, 65535, 1000000):
            if size > lim:
                ctx.count("completions of more than {} words".format(lim))
        ctx.count("slot {} completions".format(i))
        ctx.state(job["name"], job["seed"], t, i)
        used_upto = c + size - 1
        wpos += size
    # the frame being stored at the end
    size = sizes[-1][1]
    ctx.expect(len(wr) - wpos <= size, "{}: {} words were written that belong to no completed slot".format(name, len(wr) - wpos))
    # frames skipped: only if no slot was armed
    inside = np.zeros(len(acc), bool)
    for c, e, _, _ in captured:
        inside[c:e] = True
    armed = (st == 1).any(axis=1)
    # words taken after the last completion may belong to the frame in progress
    last = captured[-1][1] if captured else 0
    sk = [k for k in np.nonzero((asof == 1) & ~inside)[0] if k < last or not captured]
    for k in sk:
        t = int(acc[k])
        lo = max(0, t - 4)
        always = (st[lo:t + 1] == 1).all(axis=0).any()
        if always:
            ctx.fail("{}: the frame starting at cycle {} (word {}) was skipped although slot {} was armed (slot states {})".format(
                name, t, int(aidx[k]), int(np.nonzero((st[lo:t + 1] == 1).all(axis=0))[0][0]), st[t].tolist()))
            break
        ctx.count("frames skipped without an armed slot")
    # without an armed slot the stream is not held back
    idle = ~armed & (a[:, 0] == 1)
    ctx.count("words offered without an armed slot", int(idle.sum()))
    held = np.concatenate([[0], np.cumsum(idle & (a[:, 1] == 0))])
    run_ = np.nonzero(held[40:] - held[:-40] == 40)[0]
    if len(run_):
        ctx.fail("{}: the stream is held back for 40 cycles from {} on though no slot is armed".format(name, int(run_[0])))
    # interrupt
    irq = a[:, 7]
    want = ((st >> 1) & (a[:, db.c_en][:, None] >> np.arange(n)) & 1).any(axis=1).astype(np.int64)
    lat = 3
    win = np.lib.stride_tricks.sliding_window_view(want, lat)
    bad = np.nonzero(((win == irq[lat - 1:, None]).sum(axis=1) == 0))[0]
    if len(bad):
        t = int(bad[0]) + lat - 1
        ctx.fail("{}: interrupt line {} at cycle {} with slot states {} and enable {:#x}".format(name, int(irq[t]), t, st[t].tolist(), int(a[t, db.c_en])))
    ctx.count("interrupt changes", int((irq[1:] != irq[:-1]).sum()))
    ctx.count("enabled interrupts", int(want.sum()))
    ctx.count("interrupt cycles", int(irq.sum()))
    ctx.sample("{}: {} completions, {} words written, {} slots".format(name, len(comp), len(wr), n))
