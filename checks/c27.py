"""HDMI mode data enable: video periods, data islands, guard bands"""
import numpy as np
from migen import *
import gw, tmds
from streams import *

RULE = ("HDMI character streams (control periods with every CTL code, preambles, guard bands, data islands of random TERC4 characters, video "
        "periods of encoded pixels including ones that look like guard bands) with noise bursts and sync losses in between; data enable must cover "
        "exactly the pixels, with the latency of DVI mode; island indication exactly the islands, the indications of encrypted characters exactly the pixels and the islands' characters between guard bands; a case is a distinct (period kind, length, predecessor) ")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics",
          "after noise or loss of synchronisation, judgement resumes with the first clean control period of at least 12 characters"]
MIN_EVENTS = 200000
MUST_OBSERVE = ("video periods", "data islands", "guard band look-alike pixels at the start of a line", "noise bursts", "sync losses",
                "DVI lines", "TERC4 characters", "one pixel lines")
DGB = 0b0100110011
VGB = (0b1011001100, 0b0100110011, 0b1011001100)
LOOK = (0xab, 0x55, 0xab)


def jobs(tier, seed):
    n = 24 if tier == "quick" else 240
    return ([dict(name="hdmi-{}".format(i), kind="hdmi", seed=seed + i) for i in range(n)] +
            [dict(name="dvi-{}".format(i), kind="dvi", seed=seed + i) for i in range(max(4, n//6))] +
            [dict(name="terc4-{}".format(i), kind="terc4", seed=seed + i, ch=i % 3) for i in range(6)])


class Stream:
    """rows: valid, symbols of 3 channels, de, island, judged"""
    def __init__(self, rng, ctx):
        self.rng, self.ctx = rng, ctx
        self.rows = []
        self.n = 0
        self.judged = 0

    def add(self, ch, de=0, isl=0, valid=1):
        n = len(ch[0])
        r = np.empty((n, 7), np.int64)
        r[:, 0] = valid
        for i in range(3):
            r[:, 1 + i] = ch[i]
        r[:, 4], r[:, 5], r[:, 6] = de, isl, self.judged
        self.rows.append(r)
        self.n += n

    def control(self, n, ctl=None, hv=None):
        rng = self.rng
        C = np.array(tmds.CONTROL)
        hv = rng.integers(0, 4, n) if hv is None else np.full(n, hv)
        if ctl is None:
            ctl = np.repeat(rng.choice([0, 0, 0, 8, 9, 3, 15, 4], n), rng.integers(1, 9, n))[:n]
        else:
            ctl = np.full(n, ctl)
        self.add((C[hv], C[ctl & 3], C[ctl >> 2]))

    def clean(self):
        """a control period after which everything is judged"""
        if not self.judged:
            self.control(12, ctl=0)
            self.judged = 1

    def island(self, n):
        rng = self.rng
        T = np.array(tmds.TERC4)
        self.control(8, ctl=5)
        g = np.full(2, DGB)
        self.add((T[rng.integers(12, 16, 2)], g, g), isl=1)
        self.add(tuple(T[rng.integers(0, 16, n)] if rng.random() < .7 else T[np.full(n, 8)] for i in range(3)), isl=2)
        self.add((T[rng.integers(12, 16, 2)], g, g), isl=1)
        self.ctx.count("data islands")
        self.ctx.count("TERC4 characters", 3*n)
        self.ctx.state("island", n)

    def video(self, n, gb=True):
        rng = self.rng
        d = rng.integers(0, 256, (n, 3))
        k = 0
        x = rng.random()
        if x < .35:
            k = min(n, int(rng.integers(1, 5)))
            d[:k] = LOOK
            self.ctx.count("guard band look-alike pixels at the start of a line", k)
        elif x < .5:
            d[:] = np.where(rng.random((n, 1)) < .5, LOOK, d)
        if gb:
            self.control(8, ctl=1)
            self.add(tuple(np.full(2, v) for v in VGB))
        one = np.ones(n, np.int64)
        self.add(tuple(tmds.encode(d[:, i], one, one) for i in range(3)), de=1)
        self.ctx.count("video periods" if gb else "DVI lines")
        if n == 1:
            self.ctx.count("one pixel lines")
        self.ctx.state("video", n, k, gb)

    def disturb(self):
        rng = self.rng
        self.judged = 0
        # the characters right before are affected as well: latency
        n = int(rng.integers(1, 60))
        kind = int(rng.integers(0, 4))
        if kind == 0:
            self.add(tuple(rng.integers(0, 1024, n) for i in range(3)))
            self.ctx.count("noise bursts")
        elif kind == 1:
            sp = np.array(tmds.CONTROL + list(VGB) + [DGB] + tmds.TERC4)
            self.add(tuple(sp[rng.integers(0, len(sp), n)] for i in range(3)))
            self.ctx.count("noise bursts")
        elif kind == 2:
            self.add(tuple(rng.integers(0, 1024, n) for i in range(3)), valid=0)
            self.ctx.count("sync losses")
        else:
            # a period that starts and never ends properly
            i0 = len(self.rows)
            (self.island if rng.random() < .5 else self.video)(n)
            r = np.concatenate(self.rows[i0:])
            cut = int(rng.integers(1, len(r)))
            self.n -= len(r) - cut
            self.rows[i0:] = [r[:cut].copy()]
            self.rows[-1][:, 6] = 0
            self.ctx.count("noise bursts")


def run(job, ctx):
    rng = npr(job)
    if job["kind"] == "terc4":
        return terc4(job, ctx, rng)
    from litevideo.input.decoding import DecodeTERC4
    dvi = job["kind"] == "dvi"

    def make():
        return ClockDomainsRenamer("pix")(DecodeTERC4())
    dut = ctx.build(make)
    sim = ctx.build(gw.Sim, dut, clocks=("pix", "sys"))
    s = Stream(rng, ctx)
    s.add((np.zeros(0, np.int64),)*3)
    while s.n < 40000:
        x = rng.random()
        if x < .04:
            s.disturb()
        elif dvi:
            s.clean()
            s.control(int(rng.choice([1, 2, 5, 30])))
            s.video(int(rng.choice([1, 2, 3, 17, 100])), gb=False)
        else:
            s.clean()
            s.control(int(rng.choice([4, 5, 12, 30])))
            if x < .4:
                s.island(32*int(rng.choice([1, 1, 1, 2, 3, 18])))
            else:
                s.video(int(rng.choice([1, 2, 3, 4, 17, 100, 400])))
    s.control(20)
    R = np.concatenate(s.rows)
    n = len(R)
    st = np.concatenate([R[:, :4], np.zeros((n, 7), np.int64)], 1)
    for i in range(3):
        de, d, c = tmds.decode(R[:, 1 + i])
        # as Decoding presents it: held control bits, data of control characters decoded all the same
        idx = np.maximum.accumulate(np.where(de == 0, np.arange(n), 0))
        st[:, 4 + i] = c[idx]
        st[:, 7 + i] = tmds.DATA[R[:, 1 + i]]
        if i == 0:
            st[:, 10] = de
    st = np.concatenate([st, np.full((n, 1), int(dvi))], 1)
    di = [dut.data_in0, dut.data_in1, dut.data_in2]
    ins = [dut.valid_i] + [x.raw for x in di] + [x.c for x in di] + [x.d for x in di] + [dut.data_in0.de, dut.dvimode.storage]
    out = sim.run_trace(sim.mask("pix") | sim.mask("sys"), ins, st, [dut.de_o, dut.encoding_terc4, dut.encrypting_video, dut.encrypting_data])
    judged = R[:, 6] == 1
    # 'judged' up to 3 characters before a disturbance
    for k in range(1, 6):
        judged[:-k] &= R[k:, 6] == 1
    if dvi:
        judged &= np.arange(n) > 16
    L = 1       # the latency of the other signals in HDMIIn
    jj = np.nonzero(judged[:n - L])[0]
    bad = np.nonzero(out[jj + L, 0] != R[jj, 4])[0]
    if len(bad):
        t = jj[bad[0]]
        a = max(0, t - 20)
        ctx.fail("{}: data enable is {} for a {} character (position {}, {} wrong in all); expected ..{} observed ..{} in {} mode".format(
            job["name"], out[t + L, 0], "pixel" if R[t, 4] else "non-pixel", t, len(bad),
            "".join(map(str, R[a:t + 20, 4])), "".join(map(str, out[a + L:t + 20 + L, 0])), job["kind"]))
        return
    ctx.ev(len(jj))
    if not dvi:
        # island indication: exactly the island, at some constant latency
        oks = []
        for l in range(0, 5):
            w = judged[:n - l] & (np.arange(n - l) > 10)
            for k in range(1, 6):
                w[k:] &= judged[:n - l - k]
            if (out[l:, 1][w] == (R[:n - l, 5][w] > 0)).all():
                oks.append((l, (out[l:, 3][w] == (R[:n - l, 5][w] == 2)).all()))
        ctx.expect(oks, "{}: the island indication does not match the data islands at any latency".format(job["name"]))
        ctx.expect(not oks or any(x for l, x in oks), "{}: the encrypted data indication is not limited to the islands' characters between the guard bands".format(job["name"]))
        ctx.expect((out[:, 2] == out[:, 0])[jj + L].all(), "{}: the encrypted video indication differs from data enable".format(job["name"]))
        ctx.count("island latency {}".format(oks[0][0] if oks else None))
        ctx.expect(not (out[:, 0] & out[:, 1])[jj].any(), "{}: video and island at the same time".format(job["name"]))
    ctx.sample("{}: {} characters judged".format(job["name"], len(jj)))
    ctx.sanitizers(sim)


def terc4(job, ctx, rng):
    from litevideo.input.decoding import DecodeTERC4Channel
    dut = ctx.build(DecodeTERC4Channel, job["ch"])
    sim = ctx.build(gw.Sim, dut, clocks=("pix",))
    n = 20000
    v = rng.integers(0, 16, n)
    T = np.array(tmds.TERC4)
    out = sim.run_trace(sim.mask("pix"), [dut.valid_in, dut.data_in.raw], np.stack([np.ones(n, np.int64), T[v]], 1), [dut.decval.d])
    bad = np.nonzero(out[1:, 0] != v[:-1])[0]
    ctx.expect(not len(bad), lambda: "channel {}: TERC4 character {:010b} decodes to {}, not {}".format(job["ch"], T[v[bad[0]]], out[1 + bad[0], 0], v[bad[0]]))
    ctx.ev(n)
    ctx.count("TERC4 characters", n)
    ctx.states_bulk(("terc4", job["ch"], int(a), int(b)) for a, b in zip(v[:-1], v[1:]))
    ctx.sanitizers(sim)
