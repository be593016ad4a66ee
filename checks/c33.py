"""the whole receiver, from pads to memory"""
import numpy as np
from migen import *
import gw, bench, raster, rx, tmds, rxphy, rxlink
from streams import *

RULE = ("complete receivers of both families fed with serial TMDS bits of random video (any sync polarity, lane skew, bit alignment; in HDMI mode with guard bands "
        "and data islands), software arming slots over the CSR bus; every completed slot must hold one transmitted frame bit for bit, in order; the "
        "resolution registers must read its size, the lock registers 1, and the error counters 0; noise in between may only cost the frames it touches; "
        "a case is a distinct frame received")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "vendor primitives behave as in UG471 and UG381",
          "blanking long enough for synchronisation; lane skew below 5 characters; memory fast enough"]
MIN_EVENTS = 5000
MUST_OBSERVE = ("frames received", "s6", "s7", "dvi", "hdmi", "dvi mode on HDMI receiver", "inverted lanes", "noise bursts", "frames after noise", "resolutions read", "interrupts", "polarity 0", "polarity 3",
                "rgb", "ycbcr422", "error counts of a bad lane", "error counts of good lanes", "status reads with one lane missing")


def jobs(tier, seed):
    n = 4 if tier == "quick" else 60
    j = []
    for i in range(n):
        for dev in ("xc7", "xc6"):
            for mode in ("rgb", "ycbcr422"):
                for hdmi in (False, True):
                    j.append(dict(name="{}-{}-{}-{}".format(dev, mode, "hdmi" if hdmi else "dvi", i), dev=dev, mode=mode, hdmi=hdmi, seed=seed + i))
            j.append(dict(name="{}-errors-{}".format(dev, i), dev=dev, mode="rgb", hdmi=False, seed=seed + i, errors=1))
            for lane in range(3):
                j.append(dict(name="{}-partial-{}-{}".format(dev, i, lane), dev=dev, mode="rgb", hdmi=i % 2 == 1, seed=seed + i, partial=1, lane=lane))
    return j


def errors(job, ctx, rng):
    """error counters of the lanes (with a short period): zero on a good link, and only the lane with errors counts"""
    import litevideo.input as m
    PB = 10
    old = m.WER
    m.WER = lambda *a, **k: old(*a, **dict(k, period_bits=PB))
    try:
        lb = rxlink.LinkBench(ctx, rng, job["dev"], "rgb", False, tuple(n for n in ("data0", "data1", "data2") if rng.random() < .3), dw=64,
                              csr_width=int(rng.choice([8, 32])), sysper=float(rng.uniform(4, 9)))
    finally:
        m.WER = old
    short = [c for c in lb.host.csrs if c.name.endswith("wer_value")]
    short = len(short) == 3 and all(c.size == PB for c in short)
    name = job["name"]
    p = rxlink.hdmi_geometry(rng, 2, 40, 6, False)
    n = raster.size(p)
    P = 1 << PB
    per = max(3*P//n + 1, 4)                # frames per phase
    phases = [None, int(rng.integers(0, 3)), None, int(rng.integers(0, 3)), None]
    syms = []
    for _ in range(per*len(phases)):
        px = rng.integers(0, 256, (n, 3))
        syms.append(rxlink.frame_symbols(rng, p, 3*int(rng.integers(0, 2)) if not syms else 0, px, False))
    skew = rng.integers(0, 45, 3)
    rows, sigs = [], []
    for i, l in enumerate(lb.lanes):
        x = np.concatenate([rng.integers(0, 2, skew[i]), rxphy.bits_of(np.concatenate([s[i] for s in syms]), 10), rng.integers(0, 2, 80 - skew[i])])
        for k, c in enumerate(phases):
            if c == i:
                a, b = k*per*n*10, (k + 1)*per*n*10
                x[a:b] ^= rng.random(b - a) < .03
        rows.append(l.rows(x))
        sigs += l.signals()
    lb.b.ticks(60)
    d = lb.b.drive(sigs, np.concatenate(rows, 1), lb.slow)
    rpl = lb.lanes[0].n
    for k, c in enumerate(phases):
        end = int(((k + 1)*per*n - P//8)*10/rpl)
        while d[3] < end:
            lb.b.ticks(min(2000, max(1, end - d[3])), lb.slow)
        for i in range(3):
            lb.w("data{}_wer_update".format(i), 1)
            lb.b.ticks(4)
            v = lb.r("data{}_wer_value".format(i))
            ctx.ev()
            if c == i:
                ctx.count("error counts of a bad lane")
                ctx.expect(v > 0 or not short, "{}: the error counter of lane {} reads 0 although 3% of its bits are wrong".format(name, i))
            else:
                ctx.count("error counts of good lanes")
                ctx.expect(v == 0, "{}: the error counter of lane {} reads {} although there are no errors on this lane (errors on lane {})".format(name, i, v, c))
            ctx.state(name, k, i)
    ctx.sample("{}: {} frames of {} clocks per phase".format(name, per, n))
    ctx.sanitizers(lb.sim)


def partial(job, ctx, rng):
    """one lane never shows enough control characters in a row to be aligned: nothing may be reported or captured, wherever its characters start"""
    hdmi = job["hdmi"]
    lb = rxlink.LinkBench(ctx, rng, job["dev"], "rgb", hdmi, tuple(n for n in ("data0", "data1", "data2") if rng.random() < .3), dw=64,
                          csr_width=int(rng.choice([8, 32])), sysper=float(rng.uniform(4, 9)))
    name = job["name"]
    if hdmi:
        lb.w("dvimode", 1)
    p = rxlink.hdmi_geometry(rng, 2, 40, 6, False)
    n = raster.size(p)
    lane = job["lane"]
    parts = [[], [], []]
    one = np.ones(1, np.int64)
    filler = int(tmds.encode(0*one + 0x10, 0*one, one)[0])
    ctl = np.array(tmds.CONTROL)
    lens = []
    k = 0
    while k < 10 or sum(lens) < 30*(p["hscan"] + 1):
        px = rng.integers(0, 256, (n, 3))
        s = rxlink.frame_symbols(rng, p, 0, px, False)
        t = s[lane].copy()
        run_ = 0
        for i in range(n):
            run_ = run_ + 1 if t[i] in ctl else 0
            if run_ == 8:
                t[i], run_ = filler, 0
        for i in range(3):
            b = rxphy.bits_of(t if i == lane else s[i], 10)
            # the lane's characters move by one bit with each frame
            parts[i].append(np.concatenate([[int(rng.integers(0, 2))], b]) if i == lane else b)
        lens.append(n)
        k += 1
    rows, sigs = [], []
    m = max(sum(len(x) for x in q) for q in parts)
    for l, q in zip(lb.lanes, parts):
        x = np.concatenate(q)
        rows.append(l.rows(np.concatenate([x, rng.integers(0, 2, m + 80 - len(x))])))
        sigs += l.signals()
    # some words only, so that a wrongly captured frame completes soon
    lb.w("frame_size", 8*4)
    for i in range(lb.nslots):
        lb.w("slot{}_address".format(i), 0x100*(i + 1))
        lb.w("slot{}_status".format(i), 1)
    lb.b.ticks(60)
    d = lb.b.drive(sigs, np.concatenate(rows, 1), lb.slow)
    good = [c for c in range(3) if c != lane]
    reads = 0
    while lb.b.left(d) > 0:
        lb.b.ticks(int(rng.integers(5, max(20, n//4))), "pix")
        if lb.b.left(d) <= 0:
            break
        cs = [lb.r("data{}_charsync_char_synced".format(c)) for c in range(3)]
        ctx.expect(cs[lane] == 0, "{}: char_synced of lane {} is set although it never shows 8 control characters in a row".format(name, lane))
        ctx.expect(lb.r("channels_synced") == 0, "{}: channels_synced is set although the characters of lane {} are not aligned (char_synced {})".format(name, lane, cs))
        h, v = lb.r("hres"), lb.r("vres")
        ctx.expect((h, v) == (0, 0), "{}: resolution registers read {}x{} although the characters of lane {} are not aligned".format(name, h, v, lane))
        st = [lb.r("slot{}_status".format(i)) for i in range(lb.nslots)]
        ctx.expect(all(x == 1 for x in st), "{}: slot states {} although the characters of lane {} are not aligned".format(name, st, lane))
        reads += 1
        ctx.ev()
        ctx.count("status reads with one lane missing")
        ctx.state(name, reads)
        last = cs
    ctx.expect(all(last[c] == 1 for c in good), "{}: char_synced of lanes {} never set: {}".format(name, good, last))
    lb.absorb()
    ctx.expect(not lb.memory, "{}: {} words written to memory although lane {} is missing".format(name, len(lb.memory), lane))
    ctx.sample("{}: lane {} without alignment, {} frames, {} status reads".format(name, lane, k, reads))
    ctx.sanitizers(lb.sim)


def run(job, ctx):
    rng = npr(job)
    if job.get("errors"):
        return errors(job, ctx, rng)
    if job.get("partial"):
        return partial(job, ctx, rng)
    mode, hdmi = job["mode"], job["hdmi"]
    dw = int(rng.choice([32, 64, 128] if mode == "ycbcr422" else [64, 128]))
    inv = tuple(n for n in ("data0", "data1", "data2", "clk") if rng.random() < .35)
    lb = rxlink.LinkBench(ctx, rng, job["dev"], mode, hdmi, inv if job["dev"] == "xc7" else tuple(x for x in inv if x != "clk"), dw=dw,
                          csr_width=int(rng.choice([8, 32])), fifo_depth=int(rng.choice([64, 512])), nslots=int(rng.choice([2, 3])),
                          split=job["dev"] == "xc7" and rng.random() < .3, edid=rng.random() < .5, sysper=float(rng.uniform(4, 9)))
    ctx.count("inverted lanes", len(inv))
    ctx.count("s6" if lb.s6 else "s7")
    ctx.count("hdmi" if hdmi else "dvi")
    ctx.count(mode)
    name = job["name"]
    per = dw//lb.bits
    p = rxlink.hdmi_geometry(rng, per, int(rng.choice([16, 60])), int(rng.choice([4, 12])), hdmi)
    # wide enough to hold the crossing of an event from one line to the next
    pol = int(rng.choice([0, 3, rng.integers(0, 4)]))
    ctx.count("polarity {}".format(pol))
    dvimode = hdmi and rng.random() < .3
    if dvimode:
        lb.w("dvimode", 1)
        ctx.count("dvi mode on HDMI receiver")
    F = 16
    n = raster.size(p)
    # time to lock: a few frames, more if these have few lines
    START = AFTER = 2.2 + 16*(p["hscan"] + 1)/n
    words, syms = [], []
    ends = [0]
    act = np.nonzero(raster.frame(p)[:, 2])[0].reshape(p["vres"], p["hres"])
    for k in range(F):
        px = rng.integers(0, 256, (n, 3))
        if rng.random() < .3:
            px = np.where(rng.random((n, 3)) < .5, 0, 255)
        if hdmi and rng.random() < .5:
            # lines that start with pixels encoded like guard bands
            px[act[:, :min(2, p["hres"])].ravel()] = (0xab, 0x55, 0xab)
        s = np.concatenate([rx.encode_line(mode, *px[l].T) for l in act])
        words.append(rx.pack(s, lb.bits, dw))
        syms.append(rxlink.frame_symbols(rng, p, pol, px, hdmi and not dvimode))
        ends.append(ends[-1] + n)
    sym = [np.concatenate([x[i] for x in syms]) for i in range(3)]
    skew = rng.integers(0, 45, 3)
    noise = None
    if rng.random() < .6:
        a = int(rng.integers(4*n, 8*n))*10
        noise = (a, a + int(rng.choice([1, 3, 10, 200, 2000])))
        ctx.count("noise bursts")
    # calibration of the setting: idle link first
    lb.b.ticks(60)
    wb = dw//8
    nw = len(words[0])
    lb.w("frame_size", nw*wb)
    lb.w("enable", (1 << lb.nslots) - 1)
    d = lb.send(sym, skew, noise)
    total = len(d[1])
    bits_per_row = lb.lanes[0].n

    def pos():
        """frame being transmitted (with fraction)"""
        return d[3]*bits_per_row/10/n
    armed = {}
    got = []            # frame numbers
    base = 0
    last = -1
    resread = 0
    stride = max(64, int(nw*1.5))
    while lb.b.left(d) > 0:
        for i in range(lb.nslots):
            st = lb.r("slot{}_status".format(i))
            if st == 2:
                lb.absorb()
                a = armed.pop(i)[0]
                end = lb.r("slot{}_address".format(i))
                if not ctx.expect(end == (a + nw)*wb, "{}: slot {} at {:#x} completes with address {:#x}, frame is {} bytes".format(name, i, a*wb, end, nw*wb)):
                    return
                w = [lb.memory.get(a + q) for q in range(nw)]
                f = [k for k in range(last + 1, F) if words[k] == w]
                if not f:
                    # a frame hit by noise may be garbled
                    fr = sorted(range(F), key=lambda k: sum(x != y for x, y in zip(words[k], w)))[0]
                    if pos() < START + 1 or noise is not None and noise[0]/10/n - 1.2 < pos() < noise[1]/10/n + AFTER + 1:
                        ctx.count("garbled frames")
                    else:
                        wrong = [q for q in range(nw) if words[fr][q] != w[q]]
                        ctx.fail("{}: slot {} completed with something else than a transmitted frame: closest is frame {}, {} of {} words differ, first at {}: {} instead of {:#x} (dw={}, {}x{}, inverted {}, skew {}, frame {:.1f}, noise {})".format(
                            name, i, fr, len(wrong), nw, wrong[0], "nothing written" if w[wrong[0]] is None else hex(w[wrong[0]]), words[fr][wrong[0]],
                            dw, p["hres"], p["vres"], inv, skew.tolist(), pos(), noise and (noise[0]/10/n, noise[1]/10/n)))
                        return
                else:
                    f = f[0]
                    if not ctx.expect(f > last, "{}: frame {} captured after frame {}".format(name, f, last)):
                        return
                    last = f
                    got.append(f)
                    ctx.count("frames received")
                    if noise is not None and f > noise[1]/10/n + 1:
                        ctx.count("frames after noise")
                    ctx.ev(nw)
                    ctx.state(name, f)
                st = 0
            if st == 0:
                a = base
                base = (base + stride) % ((1 << lb.aw) - stride)
                lb.w("slot{}_address".format(i), a*wb)
                lb.w("slot{}_status".format(i), 1)
                armed[i] = (a, pos())
        lb.absorb()
        quiet = noise is None or not noise[0]/10/n - .2 < pos() < noise[1]/10/n + AFTER
        if pos() > START + 1 and quiet and pos() < F - .1 and rng.random() < .3:
            h, v = lb.r("hres"), lb.r("vres")
            ctx.expect((h, v) == (p["hres"], p["vres"]), "{}: resolution registers read {}x{}, the signal is {}x{} (frame {:.1f}, noise {})".format(name, h, v, p["hres"], p["vres"], pos(), noise and (noise[0]/10/n, noise[1]/10/n)))
            for c in range(3):
                ctx.expect(lb.r("data{}_charsync_char_synced".format(c)) == 1, "{}: char_synced of channel {} is 0".format(name, c))
            ctx.expect(lb.r("channels_synced") == 1, "{}: channels_synced is 0".format(name))
            ctx.expect(lb.r("clocking_locked") == 1, "{}: locked reads 0".format(name))
            ctx.count("resolutions read")
        lb.b.ticks(int(rng.integers(20, max(40, int(n*.3)))), "pix")
    ctx.count("interrupts", int(lb.irqs > 0))
    # software re-arms within a fraction of a frame: (almost) every frame after lock arrives
    lost = [k for k in range(int(START + 1), F - 1) if k not in got]
    if noise is not None:
        a, b = noise[0]/10/n - 1.1, noise[1]/10/n + AFTER
        lost = [k for k in lost if not a <= k <= b]
    ctx.expect(not lost, "{}: frames {} of {} never arrive (received {}; {}x{}, slots {}, noise at {})".format(name, lost, F, got, p["hres"], p["vres"], lb.nslots, noise and noise[0]/10/n))
    ctx.expect(lb.sim[lb.dram.missed] == 0, "{}: memory controller starved".format(name))
    ctx.sample("{}: {}x{} dw={} frames {}".format(name, p["hres"], p["vres"], dw, got))
    ctx.sanitizers(lb.sim)


