"""loss and return of the received signal"""
import numpy as np
from migen import *
import gw, bench, raster, rx, tmds, rxphy, rxlink
from streams import *

RULE = ("complete receivers of both families that lose lock at random instants (PLL reset by software or by the link going away; pixel clocks stopped or running, data silent or random) and get "
        "another video signal afterwards: other geometry, polarity, skew, alignment, HDMI or DVI; software keeps polling, clearing and re-arming. After each return every frame must be captured as in C33, "
        "the registers must tell the truth, and nothing may be written outside the buffers that were armed; a case is a distinct frame received or loss of lock")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "vendor primitives behave as in UG471 and UG381", "the pixel clocks run for a while before lock is reported",
          "as in C33 blanking is long enough for synchronisation, lane skew below 5 characters and memory fast enough", "a transfer interrupted in mid-frame may be completed with words of later frames"]
MIN_EVENTS = 3000
MUST_OBSERVE = ("frames received", "frames received after a loss", "s6", "s7", "split", "losses of lock in mid-frame", "losses with stopped clocks", "losses with running clocks", "PLL reset by software", "resolutions read",
                "other geometry after a loss", "locked read 0", "overflow cleared while unlocked", "overflows after a loss reported", "no overflow after a loss reported")


def jobs(tier, seed):
    n = 3 if tier == "quick" else 40
    return [dict(name="overflow-{}-{}".format(mode, i), mode=mode, seed=seed + 11*i, i=i, overflow=1) for i in range(4*n) for mode in ("rgb", "ycbcr422")] + \
           [dict(name="{}-{}-{}-{}".format(dev, mode, "hdmi" if hdmi else "dvi", i), dev=dev, mode=mode, hdmi=hdmi, seed=seed + i, i=i)
            for i in range(n) for dev in ("xc7", "xc6") for mode in ("rgb", "ycbcr422") for hdmi in (False, True)]


def overflow(job, ctx, rng):
    """the overflow flag over resets of the pixel domain"""
    mode, name = job["mode"], job["name"]
    w = int(rng.choice([64, 128]))
    f = w//(16 if mode == "ycbcr422" else 32)
    depth = int(rng.choice([4, 8, 16]))
    ratio = float(rng.choice([.3, .55, .8, 1., 1.37]))
    fb = rx.FrameBench(ctx, rng, mode, w, depth, {"pix": 10., "sys": 10.*ratio}, csr_width=int(rng.choice([8, 32])))
    b, sim = fb.b, fb.sim
    rst = sim.rst("pix")
    p = rx.capture_geometry(rng, f, 4*f, 3, 20)
    v = rx.Video(rng, mode, [p]*8, smooth=0, extremes=0)
    rows = np.concatenate(v.rows)
    n = len(v.rows[0])
    ppl = n/(p["hres"]*p["vres"])          # clocks per pixel
    ones, zeros = np.ones(1, np.uint8), np.zeros(1, np.uint8)
    def rd():
        return b.read("overflow") & 1
    def settle():
        b.ticks(12, "pix")
        b.ticks(12)
    b.drive(fb.ins, rows, "pix", cyclic=True)
    fb.ready(ones)
    b.log = False
    b.ticks(4*n, "pix")
    for k in range(40):
        # outage, software clearing the flag before, during or after it
        if rng.random() < .3:
            # lose words first
            fb.ready(zeros)
            b.ticks(int((depth + 4)*f*ppl + 2*n), "pix")
            ctx.expect(rd() == 1, "{}: overflow reads 0 although words are being lost (round {})".format(name, k))
            fb.ready(ones)
        at = rng.choice(["before", "during", "after", "twice", "never"])
        if at == "before" or rng.random() < .2:
            b.write("overflow", 1)
            b.ticks(int(rng.integers(0, 8)))
        stop = rng.random() < .5
        b.drive(fb.ins, np.zeros((1, len(fb.ins))), "pix")
        if stop and rng.random() < .5:
            b.stopped = b.bits["pix"]
            b.ticks(int(rng.integers(1, 20)))
        sim[rst] = 1
        sim.settle()
        if not stop:
            b.ticks(int(rng.integers(1, 30)), "pix")
        for _ in range(2 if at == "twice" else 1 if at == "during" else 0):
            b.write("overflow", 1)
            ctx.count("overflow cleared while unlocked")
            b.ticks(int(rng.integers(20, 50)))
        b.ticks(int(rng.integers(1, 60)))
        b.stopped = 0
        b.ticks(int(rng.integers(2, 30)), "pix")
        sim[rst] = 0
        sim.settle()
        b.drive(fb.ins, rows, "pix", cyclic=True)
        settle()
        if at == "after" and rng.random() < .5:
            b.write("overflow", 1)
            settle()
        b.ticks(int(2*n + depth*10), "pix")
        if rng.random() < .5:
            # nothing lost: cleared, it reads 0
            b.write("overflow", 1)
            settle()
            b.ticks(int(rng.integers(1, n)), "pix")
            ctx.ev()
            ctx.count("no overflow after a loss reported")
            ctx.expect(rd() == 0, "{}: overflow reads 1 although no word was lost since it was cleared, after a reset of the pixel clock domain (cleared {} it, round {})".format(name, at, k))
        fb.ready(zeros)
        b.ticks(int((depth + 4)*f*ppl + 2*n), "pix")
        settle()
        ctx.ev()
        ctx.count("overflows after a loss reported")
        ctx.expect(rd() == 1, "{}: words are lost but overflow reads 0, after a reset of the pixel clock domain (cleared {} it, round {})".format(name, at, k))
        fb.ready(ones)
        b.ticks(int(n), "pix")
        ctx.state(name, k, str(at))
    ctx.sanitizers(sim)


def run(job, ctx):
    rng = npr(job)
    if job.get("overflow"):
        return overflow(job, ctx, rng)
    mode, hdmi, name = job["mode"], job["hdmi"], job["name"]
    dw = int(rng.choice([32, 64, 128] if mode == "ycbcr422" else [64, 128]))
    s7 = job["dev"] == "xc7"
    inv = tuple(n for n in ("data0", "data1", "data2", "clk")[:4 if s7 else 3] if rng.random() < .35)
    split = s7 and job["i"] % 3 == 1
    depth = int(rng.choice([16, 64, 512]))
    lb = rxlink.LinkBench(ctx, rng, job["dev"], mode, hdmi, inv, dw=dw, csr_width=int(rng.choice([8, 32])), fifo_depth=depth, nslots=int(rng.choice([2, 3])), split=split, sysper=float(rng.uniform(4, 9)))
    b, sim = lb.b, lb.sim
    ctx.count("s7" if s7 else "s6")
    ctx.count("split", int(split))
    per = dw//lb.bits
    wb = dw//8
    pixdoms = sum(m for k, m in b.bits.items() if k != "sys")
    plls = [i for i in sim.instances if any(p in i.outputs for p in ("LOCKED", "LOCK"))]
    bits_per_row = lb.lanes[0].n
    lb.w("enable", (1 << lb.nslots) - 1)
    armed = {}           # slot -> (address in words, words)
    base = 0
    fs = 0
    stale = 0            # words that a transfer interrupted by the last loss may still take
    gid = 0
    S = 4
    for sess in range(S):
        p = rxlink.hdmi_geometry(rng, per, int(rng.choice([16, 60])), int(rng.choice([4, 12])), hdmi)
        pol = int(rng.integers(0, 4))
        n = raster.size(p)
        START = 2.2 + 16*(p["hscan"] + 1)/n
        act = np.nonzero(raster.frame(p)[:, 2])[0].reshape(p["vres"], p["hres"])
        nw = p["hres"]*p["vres"]//per
        # frames until an interrupted transfer is certainly over
        START += np.ceil(stale/nw)
        F = int(np.ceil(START)) + 7
        words, syms = [], []
        for k in range(F):
            px = rng.integers(0, 256, (n, 3))
            words.append(rx.pack(np.concatenate([rx.encode_line(mode, *px[l].T) for l in act]), lb.bits, dw))
            syms.append(rxlink.frame_symbols(rng, p, pol, px, hdmi))
        sym = [np.concatenate([x[i] for x in syms]) for i in range(3)]
        cut = int(rng.integers(4*n, n*F)) if sess < S - 1 else len(sym[0])
        # (the phase of the frame in which the signal appears is random, too)
        lead = 0
        # (registers wider than the bus are written byte by byte)
        old, fs = fs, nw*wb
        mixes = {old, fs} | {fs >> 8*k << 8*k | old & (1 << 8*k) - 1 for k in range(4)}
        for x in armed.values():
            x[1].update(q//wb for q in mixes if q)
        lb.w("frame_size", fs)
        stride = max(64, int(nw*1.5))
        # software arms everything anew
        lb.absorb()
        for i in range(lb.nslots):
            if base + 2*stride >= 1 << lb.aw:
                base = 0
            if lb.r("slot{}_status".format(i)) != 1:
                lb.w("slot{}_address".format(i), base*wb)
                lb.w("slot{}_status".format(i), 1)
                armed[i] = base, {nw}
                base += stride
        d = lb.send([s[lead:] for s in sym], rng.integers(0, 45, 3))

        def pos():
            return d[3]*bits_per_row/10/n
        got, last = [], -1
        lockpos = None
        if sess == 0:
            rxphy.locked(sim)
        else:
            # the clocks are back: lock follows
            b.stopped = 0
            b.ticks(int(rng.integers(2, 30)), "pix")
            if split and rng.random() < .6:
                for i in plls[::int(rng.choice([1, -1]))]:
                    for q in ("LOCKED", "LOCK"):
                        if q in i.outputs:
                            sim[i.outputs[q]] = 1
                    sim.settle()
                    b.ticks(int(rng.integers(1, 60)), "pix")
            rxphy.locked(sim)
        b.ticks(20)
        lockpos = pos()
        first = int(np.ceil(lockpos + START))
        while d[3]*bits_per_row < cut*10:
            for i in range(lb.nslots):
                st = lb.r("slot{}_status".format(i))
                if st == 2:
                    lb.absorb()
                    a, k = armed.pop(i)
                    end = lb.r("slot{}_address".format(i))
                    if end != (a + nw)*wb:
                        if not ctx.expect(end//wb - a in k and pos() < first + 1, "{}: slot {} at {:#x} completes with address {:#x}, frame is {} bytes".format(name, i, a*wb, end, nw*wb)):
                            return
                    w = [lb.memory.get(a + q) for q in range(nw)]
                    f = [k for k in range(last + 1, F) if words[k] == w]
                    if not f:
                        if pos() < first + 1:
                            ctx.count("garbled frames")
                        else:
                            fr = sorted(range(F), key=lambda k: sum(x != y for x, y in zip(words[k], w)))[0]
                            wrong = [q for q in range(nw) if words[fr][q] != w[q]]
                            ctx.fail("{}: session {}: slot {} completed with something else than a transmitted frame: closest is frame {}, {} of {} words differ (dw={}, {}x{}, frame {:.1f}, locked at {:.1f}, first {})".format(
                                name, sess, i, fr, len(wrong), nw, dw, p["hres"], p["vres"], pos(), lockpos, first))
                            return
                    else:
                        if not ctx.expect(f[0] > last, "{}: session {}: frame {} captured after frame {}".format(name, sess, f[0], last)):
                            return
                        last = f[0]
                        got.append(last)
                        ctx.count("frames received")
                        ctx.count("frames received after a loss", int(sess > 0))
                        ctx.ev(nw)
                        ctx.state(name, sess, last)
                    st = 0
                if st == 0:
                    if base + 2*stride >= 1 << lb.aw:
                        base = 0
                    lb.w("slot{}_address".format(i), base*wb)
                    lb.w("slot{}_status".format(i), 1)
                    armed[i] = base, {nw}
                    base += stride
            lb.absorb()
            if pos() > first and pos() < cut/n - .1 and rng.random() < .3:
                h, v = lb.r("hres"), lb.r("vres")
                ctx.expect((h, v) == (p["hres"], p["vres"]), "{}: session {}: resolution registers read {}x{}, the signal is {}x{} (frame {:.1f})".format(name, sess, h, v, p["hres"], p["vres"], pos()))
                for c in range(3):
                    ctx.expect(lb.r("data{}_charsync_char_synced".format(c)) == 1, "{}: char_synced of channel {} is 0".format(name, c))
                ctx.expect(lb.r("channels_synced") == 1, "{}: channels_synced is 0".format(name))
                ctx.expect(lb.r("clocking_locked") == 1, "{}: locked reads 0".format(name))
                ctx.count("resolutions read")
            b.ticks(int(rng.integers(20, max(40, int(n*.3)))), "pix")
        lost = [k for k in range(first + 1, int(cut/n) - 1) if k not in got]
        ctx.expect(not lost, "{}: session {}: frames {} of {:.1f} never arrive (received {}; {}x{}, locked at {:.1f}, first {})".format(name, sess, lost, cut/n, got, p["hres"], p["vres"], lockpos, first))
        ctx.count("other geometry after a loss", int(sess > 0))
        if sess == S - 1:
            break
        # the signal goes
        stale = max([nw] + [max(k) for _, k in armed.values()])
        ctx.ev()
        ctx.count("losses of lock in mid-frame")
        soft = rng.random() < .4
        pr = "mmcm_reset" if s7 else "pll_reset"
        if soft:
            lb.w(pr, 1)
            ctx.count("PLL reset by software")
        stop = rng.random() < .5
        if stop and rng.random() < .5:
            b.stopped = pixdoms
        for i in plls if rng.random() < .7 else plls[::-1]:
            for q in ("LOCKED", "LOCK"):
                if q in i.outputs:
                    sim[i.outputs[q]] = 0
            sim.settle()
            b.ticks(int(rng.integers(0, 5)))
        if stop:
            b.stopped = pixdoms
        ctx.count("losses with stopped clocks" if stop else "losses with running clocks")
        ctx.state(name, "loss", sess)
        lb.absorb()
        for _ in range(int(rng.integers(1, 12))):
            b.ticks(int(rng.choice([1, 5, 30, 300])))
            x = rng.random()
            if x < .4:
                lb.w("data{}_wer_update".format(int(rng.integers(0, 3))), 1)
            elif x < .7:
                b.ticks(6)
                ctx.expect(lb.r("clocking_locked") == 0, "{}: locked reads 1 without lock".format(name))
                ctx.count("locked read 0")
        if soft:
            lb.w(pr, 0)
    ctx.expect(sim[lb.dram.missed] == 0, "{}: memory controller starved".format(name))
    ctx.sanitizers(sim)
