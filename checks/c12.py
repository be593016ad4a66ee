"""character synchronisation"""
import numpy as np
from migen import *
import gw, tmds
from streams import *

RULE = ("DVI symbol streams (and hostile random bits) cut into words at every bit offset, with bit slips, short control bursts below the "
        "required count and garbage in between; after a run of control symbols the recovered words must be the transmitted symbols at a "
        "constant delay until the next slip, and the alignment may only move after a sufficient run at one position; a case is a "
        "distinct (offset before, offset after, run length) history")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics"]
MIN_EVENTS = 200000
MUST_OBSERVE = ("locks", "slips", "short bursts survived", "hostile words", "offset 0", "offset 9", "status checks")


def jobs(tier, seed):
    n = 5 if tier == "quick" else 60
    return ([dict(name="dvi-{}-{}".format(rc, k), kind="dvi", rc=rc, seed=seed + k, n=60000) for k in range(n) for rc in (8, 8, 4, 16)][:] +
            [dict(name="hostile-{}-{}".format(rc, k), kind="hostile", rc=rc, seed=seed + k, n=60000) for k in range(n) for rc in (8, 3)])


def symbols(rng, n):
    d, c = rng.integers(0, 256, n), np.repeat(rng.integers(0, 4, n//12 + 1), 12)[:n]
    de = np.ones(n, np.int64)
    i = 0
    while i < n:
        a = int(rng.choice([rng.integers(1, 8), rng.integers(20, 400)]))
        b = int(rng.choice([1, 2, 5, 7, 8, 9, 10, 11, 12, 13, 20, 60, 200]))
        de[i + a:i + a + b] = 0
        i += a + b
    if rng.random() < .3:
        d = np.repeat(d, 30)[:n]
    return tmds.encode(d, c, de)


def bits(sym):
    return ((sym[:, None] >> np.arange(10)) & 1).ravel()


def run(job, ctx):
    from litevideo.input.charsync import CharSync
    rng = npr(job)
    n, rc = job["n"], job["rc"]
    dut = ctx.build(CharSync, rc) if rc != 8 else ctx.build(CharSync)
    sim = ctx.build(gw.Sim, dut, clocks=("pix", "sys"))
    slips = []
    if job["kind"] == "dvi":
        b = bits(symbols(rng, n + 200))
        # slips: drop 1..19 bits at random places
        cut = np.sort(rng.choice(np.arange(500, len(b) - 3000), int(rng.integers(3, 60)), replace=False))
        keep = np.ones(len(b), bool)
        keep[:int(rng.integers(0, 10))] = False
        for x in cut:
            keep[x:x + int(rng.integers(1, 20))] = False
        b = b[keep]
        slips = cut
    else:
        # random bits with control bursts of random lengths at random offsets
        parts = []
        tot = 0
        while tot < 10*n + 200:
            g = rng.integers(0, 2, int(rng.integers(1, 60)))
            k = int(rng.choice([1, 2, 3, rc - 2, rc - 1, rc, rc + 1, rc + 2, rc + 3, 3*rc]))
            t = bits(np.array(tmds.CONTROL)[rng.integers(0, 4, k) if rng.random() < .5 else np.full(k, rng.integers(0, 4))])
            parts += [g, t]
            tot += len(g) + len(t)
        b = np.concatenate(parts)
        ctx.count("hostile words", n)
    nw = min(n, len(b)//10 - 2)
    raw = (b[:nw*10].reshape(nw, 10) << np.arange(10)).sum(axis=1)
    out = sim.run_trace(sim.mask("pix") | sim.mask("sys"), [dut.raw_data], raw[:, None],
                        [dut.synced, dut.data, dut._char_synced.status, dut._ctl_pos.status])
    # what the words could be: window (t, p) = 10 bits from bit 10*t + p
    sl = np.lib.stride_tricks.sliding_window_view(b[:nw*10 + 10], 10)
    val = (sl << np.arange(10)).sum(axis=1)
    W = val[:(nw - 1)*10].reshape(nw - 1, 10)
    isctl = tmds.CTL[W] >= 0
    alone = isctl & (isctl.sum(axis=1) == 1)[:, None]

    def runs(m):
        """consecutive true windows up to and including t, for each position"""
        r = np.zeros(m.shape, np.int64)
        acc = np.zeros(10, np.int64)
        for t in range(len(m)):
            acc = (acc + 1)*m[t]
            r[t] = acc
        return r
    ra, rm = runs(alone), runs(isctl)
    # which alignment each output word shows; constant latency
    best = (-1, "")
    good = False
    for lat in range(1, 6):
        g = out[lat:lat + len(W)]
        m = len(g)
        must, may = None, {}          # may: position -> last window of a sufficient run
        fail = None
        locks = short = 0
        for t in range(m):
            # alignment in force for window t: decided by runs that ended at least 6 words ago (must) or since then (may)
            if t >= 6:
                p = np.nonzero(ra[t - 6] >= rc + 1)[0]
                if len(p):
                    if must != p[0]:
                        locks += 1
                    must = int(p[0])
                    may = {q: u for q, u in may.items() if u > t - 6 or q == must}
            for q in np.nonzero(rm[t] >= rc)[0]:
                may[int(q)] = t
            # several candidates since the last certain one stay possible
            if must is not None:
                y = g[t, 1]
                if y != W[t, must] and not any(W[t, q] == y for q in may):
                    fail = (t, "word {} is {:010b}, the alignment {} established by {}+ control symbols gives {:010b}".format(t, int(y), must, rc, int(W[t, must])))
                    break
                if not g[t, 0]:
                    fail = (t, "not synced although aligned")
                    break
            elif g[t, 0] and not may and t > 4:
                fail = (t, "synced without {} consecutive control symbols at one position".format(rc))
                break
        if fail is None:
            good = True
            break
        if fail[0] > best[0]:
            best = fail
    if not good:
        ctx.fail("{}: {}".format(job["name"], best[1]))
        return
    ctx.ev(nw)
    ctx.count("locks", locks)
    ctx.count("slips", len(slips))
    # run lengths and offsets seen
    end = (rm[:-1] > 0) & (rm[1:] == 0)
    ts, ps = np.nonzero(end)
    ln = rm[ts, ps]
    ctx.count("short bursts survived", int(((ln > 1) & (ln < rc)).sum()))
    prev = -1
    for t, p, l in zip(ts.tolist(), ps.tolist(), ln.tolist()):
        if l > 1:
            ctx.state(rc, prev, p, min(l, 2*rc), job["kind"])
            if l >= rc + 1:
                ctx.count("offset {}".format(p))
                prev = p
    # status registers follow
    st = out[-20:, 2:]
    if must is not None and set(may) == {must} and max(may.values()) < nw - 24:
        ctx.count("status checks")
        ctx.expect((out[-12:, 2] == 1).all() and out[-1, 3] == must,
                   "status registers read synced={} position={} while aligned at {}".format(int(out[-1, 2]), int(out[-1, 3]), must))
    ctx.sample("{}: {} words, {} locks, latency {}".format(job["name"], nw, locks, lat))
    ctx.sanitizers(sim)
