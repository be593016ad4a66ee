"""overflow of the capture FIFO"""
import numpy as np
import gw, raster, rx, bisect
from streams import *
from fw import Bug

RULE = ("frame extraction with readers that stall for longer than the FIFO can absorb, software polling and clearing the overflow flag at random "
        "instants over the CSR bus (also while words are being lost), random clock ratios and FIFO depths, metastability injection; delivered words "
        "must be an in-order subsequence of the packed frames with their markers, the flag must report exactly whether words were lost since it was "
        "cleared; a case is a distinct (poll, loss pattern) observation")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "clears are further apart than a clock-domain round trip",
          "even line width; whole words per frame; realistic blanking"]
MIN_EVENTS = 50000
MUST_OBSERVE = ("polls that must read 1", "polls that must read 0", "clears", "words lost", "first words of frames lost", "frames intact after a loss",
                "polls while losing", "clears while losing", "only first words lost", "losses placed around a clear", "losses from the third pixel clock after a clear on, reported",
                "losses at the third pixel clock after a clear", "losses before a clear, cleared", "vsync edges close behind the last pixel")


def jobs(tier, seed):
    n = 96 if tier == "quick" else 1200
    j = [dict(name="{}-{}".format(m, i), mode=m, i=i, seed=seed + 37*i) for i in range(n) for m in ("rgb", "ycbcr422")]
    j += [dict(name="race-{}-{}".format(m, i), mode=m, i=i, seed=seed + 37*i, race=1) for i in range(n//6) for m in ("rgb", "ycbcr422")]
    return j


def race(job, ctx, rng, mode, w, f):
    """single lost words placed around clears, to the clock edge (no injected metastability): what is lost at the third pixel
    clock edge after the clear, or later, is reported; what was lost before the clear is not"""
    from litex.soc.interconnect import stream
    depth = int(rng.choice([4, 8]))
    ratio = float(rng.choice([.3, .55, .8, 1., 1.37, 2., 3.3]))
    fb = rx.FrameBench(ctx, rng, mode, w, depth, {"pix": 10., "sys": 10.*ratio}, metastab=0., csr_width=int(rng.choice([8, 32])))
    def find(m):
        return [m] if isinstance(m, stream.AsyncFIFO) else sum([find(x) for _, x in m._submodules], [])
    fifo = find(fb.dut)
    if len(fifo) != 1:
        raise Bug("{} asynchronous FIFOs found in FrameExtraction".format(len(fifo)))
    sink = fifo[0].sink
    host, b = fb.host, fb.b
    extra = [sink.valid, sink.ready, host.bus.we, host.bus.adr, host.bus.dat_r]
    b.trace += extra
    n0 = len(b.trace) - len(extra)
    geoms = []
    for _ in range(260):
        p = rx.capture_geometry(rng, f, f, 1, 18)
        p["hres"] = f
        add = int(rng.integers(40, 90) + 40*ratio)
        p["hscan"] += add
        geoms.append(p)
    v = rx.Video(rng, mode, geoms, smooth=0, extremes=0)
    rows = np.concatenate(v.rows)
    if rng.random() < .5:
        # vsync right behind the last pixel: a frame starts in the very clock in which the last word of the one before is lost
        act = np.nonzero(rows[:, 2])[0]
        for k in np.nonzero((rows[1:, 1] == 1) & (rows[:-1, 1] == 0))[0] + 1:
            e = act[np.searchsorted(act, k) - 1]
            if e < k:
                rows[min(k, e + 1 + (12 if mode == "ycbcr422" else 0) + int(rng.choice([0, 0, 0, 1, 2]))):k, 1] = 1
                ctx.count("vsync edges close behind the last pixel")
    d = b.drive(fb.ins, rows, "pix")
    fb.ready(np.zeros(1, np.uint8))
    P = len(v.rows[0])
    adr = host.words["overflow"][0]
    b.ticks(P*(depth + 6), "pix")
    while b.left(d) > 4*P:
        # lost words are seen as they happen; aim at the next one
        act = np.nonzero(rows[d[3]:d[3] + 3*P, 2])[0]
        act = act[act > 30]
        if not len(act):
            b.ticks(10, "pix")
            continue
        b.ticks(max(1, int(act[f - 1 if len(act) >= f else 0]) - int(rng.integers(-14 if mode == "ycbcr422" else -8, 9))), "pix")
        b.write("overflow", 1)
        b.ticks(7, "pix")
        b.ticks(9)
        b.read("overflow")
        b.ticks(int(rng.integers(1, P)), "pix")
    _, a, m = b.collect_all()
    pix, sy = (m & b.bits["pix"]) != 0, (m & b.bits["sys"]) != 0
    pe = np.nonzero(pix)[0]
    se = np.nonzero(sy)[0]
    loss = np.nonzero(pix & (a[:, n0] == 1) & (a[:, n0 + 1] == 0))[0]
    bus = sy & (a[:, n0 + 3] == adr)
    clears = np.nonzero(bus & (a[:, n0 + 2] == 1))[0]
    reads = np.nonzero(bus & (a[:, n0 + 2] == 0))[0]
    for c in clears:
        r = reads[reads > c]
        nxt = clears[clears > c]
        if not len(r) or (len(nxt) and nxt[0] < r[0]):
            continue
        r = int(r[0])
        q = se[se > r]
        if not len(q):
            continue
        val = int(a[q[0], n0 + 4])
        e3 = pe[np.searchsorted(pe, c, "right") + 2]
        seen = se[np.searchsorted(se, r) - 4]              # what is lost up to here must be visible
        late = loss[(loss >= e3) & (loss < seen)]
        ctx.ev()
        if len(late):
            ctx.count("losses from the third pixel clock after a clear on, reported")
            if late[0] == e3:
                ctx.count("losses at the third pixel clock after a clear")
            if len(late) == 1 and late[0] < pe[np.searchsorted(pe, c, "right") + 6]:
                ctx.count("losses placed around a clear")
            ctx.expect(val & 1 == 1, lambda: "{}: a word lost {} pixel clocks after the clear is not reported".format(
                job["name"], int(np.searchsorted(pe, late[0]) - np.searchsorted(pe, c, "right") + 1)))
        elif not len(loss[(loss > c) & (loss <= r)]):
            ctx.count("losses before a clear, cleared", len(loss[loss <= c]) > 0)
            ctx.expect(val & 1 == 0, lambda: "{}: overflow still reads set though nothing was lost since the clear".format(job["name"]))
        ctx.state(job["name"], job["seed"], int(c))
    ctx.sanitizers(fb.sim)


def run(job, ctx):
    rng = npr(job)
    mode = job["mode"]
    w = int(rng.choice([64, 128]))
    bits = 16 if mode == "ycbcr422" else 32
    f = w//bits
    if job.get("race"):
        return race(job, ctx, rng, mode, w, f)
    depth = int(rng.choice([4, 8, 16, 64]))
    ratio = min(float(rng.choice([.3, .55, .8, 1., 1.37, 2., 3.3])), .9*f)
    fb = rx.FrameBench(ctx, rng, mode, w, depth, {"pix": 10., "sys": 10.*ratio}, csr_width=int(rng.choice([8, 32])))
    M = int(16 + 16*ratio + 8)
    tiny = job["i"] % 3 == 2
    # tiny frames (a word or two) make first words of frames the only ones that get lost
    geoms = [rx.capture_geometry(rng, f, int(rng.choice([f, f, 2*f])), 1, 60) for _ in range(150)] if tiny else [rx.capture_geometry(rng, f, 30, 8) for _ in range(40)]
    v = rx.Video(rng, mode, geoms, smooth=0, extremes=0)
    rows = np.concatenate(v.rows)
    exp, at = [], []            # (sof, word), row of its last pixel
    base = 0
    for k, (p, r, s) in enumerate(zip(geoms, v.rows, v.frames)):
        act = np.nonzero(r[:, 2])[0] + base
        ws = rx.pack(s, bits, w)
        exp += [(int(j == 0 and k > 0), x) for j, x in enumerate(ws)]
        at += act[f - 1::f].tolist()[:len(ws)]
        base += len(r)
    fb.b.ticks(40, "pix")
    d = fb.b.drive(fb.ins, rows, "pix")
    obs = []
    ready = 1
    sim, fr = fb.sim, fb.dut.frame
    lastclear = -10**9
    while fb.b.left(d) > 0:
        # reader behaviour of this stretch
        x = rng.random()
        if x < .35:
            fb.ready(np.zeros(1, np.uint8))
        elif x < .5:
            fb.ready(pattern("sparse", rng))
        else:
            fb.ready(np.ones(1, np.uint8))
        fb.b.ticks(int(rng.choice([rng.integers(1, 30), rng.integers(30, 300), depth*f*2, *((len(v.rows[0])*int(rng.integers(1, 2*depth)),)*3 if tiny else ())])), "pix")
        fb.take()
        if rng.random() < .7:
            a = d[3]
            val = fb.b.read("overflow")
            obs.append(("read", a, d[3], val))
        if rng.random() < .35 and d[3] > lastclear + 2*M:
            a = d[3]
            fb.b.write("overflow", 1)
            obs.append(("clear", a, d[3], 0))
            lastclear = d[3]
        fb.take()
    fb.ready(np.ones(1, np.uint8))
    fb.b.ticks(600 + 4*depth, "sys")
    fb.take()
    got = [(x[0], x[1]) for x in fb.words]
    # in-order subsequence
    lost, j = [], 0
    for g in got:
        while j < len(exp) and exp[j] != g:
            lost.append(j)
            j += 1
        if j == len(exp):
            ctx.fail("{}: a word was delivered (sof={}, {:#x}) that is not the next of the frames".format(job["name"], *g))
            return
        j += 1
    lost += range(j, len(exp))
    lrow = [at[x] for x in lost]
    ctx.count("words lost", len(lost))
    ctx.count("first words of frames lost", sum(exp[x][0] for x in lost))
    ctx.ev(len(got))
    # frames after a loss are complete again
    ls = set(lost)
    k = 0
    seen = False
    for s in v.frames:
        n = len(s)//f
        miss = any(x in ls for x in range(k, k + n))
        if not miss and seen:
            ctx.count("frames intact after a loss")
        seen = seen or miss
        k += n
    any_in = lambda a, b: bisect.bisect_left(lrow, a) < bisect.bisect_right(lrow, b)
    ca = cb = -10**9
    for kind, a, b, val in obs:
        if kind == "clear":
            ca, cb = a, b
            ctx.count("clears")
            if any_in(a - M, b + M):
                ctx.count("clears while losing")
            continue
        must1 = a - M > cb + M and any_in(cb + M, a - M)
        if must1 and all(exp[x][0] for x in lost[bisect.bisect_left(lrow, cb + M):bisect.bisect_right(lrow, a - M)]):
            ctx.count("only first words lost")
        must0 = not any_in(ca - M, b + M)
        if must1:
            ctx.count("polls that must read 1")
            ctx.expect(val == 1, lambda: "{}: overflow reads {} although words were lost since the last clear (pixel clock {})".format(job["name"], val, a))
        elif must0:
            ctx.count("polls that must read 0")
            ctx.expect(val == 0, lambda: "{}: overflow reads {} although no word was lost since the last clear (pixel clock {})".format(job["name"], val, a))
        if any_in(a - M, b + M):
            ctx.count("polls while losing")
        ctx.state(job["name"], job["seed"], a)
    ctx.sample("{}: depth {} lost {} of {} words, {} polls/clears".format(job["name"], depth, len(lost), len(exp), len(obs)))
    ctx.sanitizers(sim)
