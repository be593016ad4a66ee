"""capture DMA writes only inside the buffers it was given"""
import numpy as np
import gw, capdma
from streams import *
import importlib
c19 = importlib.import_module("c19")

RULE = ("capture DMA under hostile software (slots armed, aborted, moved and re-armed at any instant, frame_size changed at any instant), hostile sources (frames of "
        "any length, including none-ending ones) and a stalling memory; every word written must be the k-th word of a frame, at base+k with k < frame_size, where base and "
        "frame_size are those of a slot that was armed when that frame began; a case is a distinct (frame, base)")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "frame_size >= 1 word (0 means no limit)"]
MIN_EVENTS = 100000
MUST_OBSERVE = ("frame_size of 2**20 words and more", "frames captured", "slots aborted in mid-frame", "slots moved in mid-frame", "frame_size changed in mid-frame", "frames longer than the buffer", "frames shorter than the buffer",
                "buffers at the end of memory", "words written")


def jobs(tier, seed):
    n = 8 if tier == "quick" else 120
    j = []
    for i in range(n):
        for sw in ("fast", "slow"):
            for mem in ("fast", "stall", "slow"):
                j.append(dict(name="{}-{}-{}".format(sw, mem, i), sw=sw, mem=mem, seed=seed + 43*i))
        for mem in ("fast", "stall"):
            j.append(dict(name="huge-{}-{}".format(mem, i), sw="fast", mem=mem, seed=seed + 43*i, huge=(10, 17, 20, 23, 12, 18, 22, 25)[i % 8]))
    return j


def run(job, ctx):
    rng = npr(job)
    db = c19.setup(job, ctx, rng)
    fs = db._csr("frame_size")
    db.b.trace.append(fs.storage)
    wb, n = db.dw//8, db.nslots
    words = 1 << db.aw
    top = min(words, 1 << (len(fs.storage) - db.shift))
    if job.get("huge"):
        return huge(job, ctx, rng, db)
    size = int(rng.integers(2, 40))
    db.w("frame_size", size*wb)
    db.run(5)
    source(db, rng, size)
    react = {"fast": 8, "slow": 60}[job["sw"]]

    def addr():
        if rng.random() < .15:
            return words - size - int(rng.integers(0, 3))
        return c19.place(rng, db.aw, size) if words > size + 64 else int(rng.integers(0, words - size))
    for k in range(700):
        db.run(int(rng.integers(1, react)))
        i = int(rng.integers(0, n))
        x = rng.random()
        if x < .45:
            db.w("slot{}_address".format(i), addr()*wb)
            if rng.random() < .9:
                db.w("slot{}_status".format(i), 1)
        elif x < .7:
            db.w("slot{}_status".format(i), int(rng.choice([0, 0, 1, 2, 3])))
        elif x < .75:
            size = int(rng.choice([1, rng.integers(1, 6), rng.integers(2, 60)]))
            # keep the bytes of a split register write harmless: high bytes are zero anyway
            db.w("frame_size", size*wb)
        elif x < .82:
            source(db, rng, size)
        elif x < .85:
            db.settings(dram_hold=1)
            db.run(int(rng.integers(5, 80)))
            db.settings(dram_hold=0)
    a = db.all()
    ctx.sanitizers(db.sim)
    check(job, ctx, db, a)


def huge(job, ctx, rng, db):
    """buffers of any size: the beginning of a frame far larger than what a run can transfer"""
    e = job["huge"]
    size = (1 << e) + int(rng.integers(0, min(40, 1 << (e - 1))))
    db.w("frame_size", size*db.dw//8)
    db.run(5)
    db.settings(src_flen=size, src_fmask=0, src_p_valid=int(rng.choice([256, 160])), src_gap=0, src_gmask=0, src_enable=1)
    for i in range(db.nslots):
        db.w("slot{}_address".format(i), int(rng.integers(0, (1 << db.aw) - size + 1))*(db.dw//8))
        db.w("slot{}_status".format(i), 1)
    db.run(5000)
    a = db.all()
    ctx.sanitizers(db.sim)
    check(job, ctx, db, a)
    ctx.count("frame_size of 2**{} words and more".format(e & ~3))
    n = int(a[:, 4].sum())
    done = [db.r("slot{}_status".format(i)) for i in range(db.nslots)].count(2)
    ctx.expect(done <= n//size, lambda: "{}: {} slots complete with {} words written, frames have {}".format(job["name"], done, n, size))


def source(db, rng, size):
    k = rng.random()
    flen = max(1, size + int(rng.integers(-size, 40)))
    if k < .1:
        flen = 20000
    elif k < .2:
        flen = int(rng.integers(2, 4))
    db.settings(src_flen=max(2, flen), src_fmask=0 if rng.random() < .6 else 7, src_p_valid=int(rng.choice([256, 256, 160, 40])),
                src_gap=int(rng.choice([0, 0, 1, 40])), src_gmask=int(rng.choice([0, 0, 15])), src_enable=1)


def check(job, ctx, db, a):
    n, S, A, P = db.nslots, db.c_st, db.c_ad, db.c_p
    name = job["name"]
    F = a.shape[1] - 1
    sh, amask = db.shift, (1 << db.aw) - 1
    ctx.ev(len(a))
    ctx.expect(db.sim[db.dram.missed] == 0, "{}: the controller fetched words that were not offered".format(name))
    acc = np.nonzero((a[:, 0] == 1) & (a[:, 1] == 1))[0]
    t_acc, sof = acc, a[acc, 2]
    first = int(a[acc[0], 3]) if len(acc) else 0
    # stream words are numbered consecutively
    tab = {}
    for k, c in enumerate(acc):
        tab[tuple(capdma.part(int(a[c, 3]), q) for q in range(db.np))] = k
    if db.np and db.dw < 32:
        raise NotImplementedError
    wr = np.nonzero(a[:, 4] == 1)[0]
    parts = a[wr, P:P + db.np]
    adr = a[wr, 5]
    ctx.count("words written", len(wr))
    src = []
    for k in range(len(wr)):
        i = tab.get(tuple(int(x) for x in parts[k]))
        if i is None or acc[i] > wr[k]:
            ctx.fail("{}: the word written to {:#x} at cycle {} is no word of the video stream".format(name, int(adr[k]), int(wr[k])))
            return
        src.append(i)
    armed = (a[:, S:S + n] & 1) == 1
    sizes = a[:, F] >> sh
    p = 0
    while p < len(wr):
        i0 = src[p]
        t = int(acc[i0])
        if not ctx.expect(sof[i0] == 1, lambda: "{}: the word written to {:#x} at cycle {} lies outside of the buffer, or does not begin a frame".format(name, int(adr[p]), int(wr[p]))):
            return
        # conditions of the cycles in which the frame can have been started
        lo = t
        prev = int(acc[i0 - 1]) if i0 else -1
        lo = max(0, prev - 2)
        vis = np.nonzero((a[lo:t + 1, 0] == 1) & (a[lo:t + 1, 3] == a[t, 3]))[0]
        lo = max(0, lo + int(vis[0]) - 3)
        cand = {}
        for c in range(lo, t + 1):
            for s in range(n):
                if armed[c, s]:
                    cand.setdefault(int(a[c, A + s]) >> sh, s)
        szs = set(int(x) for x in sizes[lo:t + 1])
        b = int(adr[p])
        if not ctx.expect(b in cand, lambda: "{}: the frame starting at cycle {} is written to {:#x}, which belongs to no armed slot (armed: {})".format(
                name, t, b, sorted(hex(x) for x in cand))):
            return
        k = 1
        while p + k < len(wr) and k < max(szs) and src[p + k] == i0 + k and int(adr[p + k]) == (b + k) & amask:
            k += 1
        if p + k < len(wr) and k not in szs:
            ctx.fail("{}: after word {} of a frame at {:#x} (frame_size {}), stream word {} (expected {}) was written to {:#x}".format(
                name, k - 1, b, sorted(szs), src[p + k], i0 + k, int(adr[p + k])))
            return
        te = int(wr[p + k - 1])
        ctx.count("frames captured")
        s = cand[b]
        if not armed[t:te, s].all():
            ctx.count("slots aborted in mid-frame")
        if (a[t:te, A + s] != a[t, A + s]).any():
            ctx.count("slots moved in mid-frame")
        if (a[t:te, F] != a[t, F]).any():
            ctx.count("frame_size changed in mid-frame")
        nxt = np.nonzero(sof[i0 + 1:] == 1)[0]
        if len(nxt):
            ctx.count("frames longer than the buffer" if nxt[0] + 1 > k else "frames shorter than the buffer")
        if b + k >= amask - 2:
            ctx.count("buffers at the end of memory")
        ctx.state(job["name"], job["seed"], i0, b)
        p += k
    ctx.sample("{}: {} words written in frames of {} sizes".format(name, len(wr), len(set(sizes.tolist()))))
