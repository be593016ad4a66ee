"""channel synchronisation"""
import numpy as np
from migen import *
import gw
from streams import *

RULE = ("three decoded channels with random data, blanking structure and every inter-channel skew the buffers can absorb, skew jumps in "
        "mid-stream and drops of the valid input; the outputs must become exact, mutually aligned copies within a few blanking "
        "intervals and stay so, and the synced flag must tell the truth; a case is a distinct (skews, line structure) history")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "blanking intervals are longer than buffer depth + skew",
          "inter-channel skew is at most depth - 2"]
MIN_EVENTS = 200000
MUST_OBSERVE = ("skew histories aligned", "skew jumps", "aligned lines", "valid drops", "maximum skew")


def jobs(tier, seed):
    n = 12 if tier == "quick" else 160
    return [dict(name="{}-{}".format(k, i), kind=k, seed=seed + i) for i in range(n) for k in ("static", "jump", "drop", "depth")]


def run(job, ctx):
    from litevideo.input.chansync import ChanSync
    rng = npr(job)
    depth, nchan = 8, 3
    if job["kind"] == "depth":
        depth, nchan = int(rng.choice([4, 8, 16, 32])), int(rng.choice([2, 3, 4]))
    dut = ctx.build(ChanSync, nchan, depth) if (depth, nchan) != (8, 3) else ctx.build(ChanSync)
    sim = ctx.build(gw.Sim, dut, clocks=("pix", "sys"))
    for rep in range(6):
        n = 14000
        # transmitted: common de, per channel data and control
        de = np.ones(n, np.int64)
        i = int(rng.integers(0, 40))
        blanks = []
        while i < n:
            b = int(rng.integers(2*depth + 4, 2*depth + 60))
            a = int(rng.choice([rng.integers(depth + 2, 40), rng.integers(60, 300)])) if depth < 30 else int(rng.integers(60, 300))
            de[i:i + b] = 0
            blanks.append((i, min(n, i + b)))
            i += a + b
        tx = []
        for c in range(nchan):
            raw = rng.integers(0, 1024, n)
            d = rng.integers(0, 256, n)
            cc = np.repeat(rng.integers(0, 4, n//20 + 1), 20)[:n]
            tx.append((raw, d, cc, de))
        mx = depth - 2
        sk = rng.integers(0, mx + 1, nchan)
        sk -= sk.min()
        if rng.random() < .4:
            sk[:] = 0
            sk[int(rng.integers(nchan))] = mx
        hist = [(0, sk.copy())]
        if job["kind"] in ("jump", "depth"):
            for x in sorted(rng.choice(np.arange(3000, n - 3000), 2, replace=False)):
                s2 = rng.integers(0, mx + 1, nchan)
                s2 -= s2.min()
                hist.append((int(x), s2.copy()))
                ctx.count("skew jumps")
        base = depth + 2
        src = np.zeros((nchan, n), np.int64)
        for c in range(nchan):
            s = np.zeros(n, np.int64)
            for k, (x, v) in enumerate(hist):
                s[x:] = v[c]
            src[c] = np.maximum(np.arange(n) - base - s, 0)
        valid = np.ones(n, np.int64)
        valid[:int(rng.integers(0, 30))] = 0
        if job["kind"] == "drop":
            for _ in range(6):
                x = int(rng.integers(100, n - 100))
                valid[x:x + int(rng.integers(1, 60))] = 0
                ctx.count("valid drops")
        ins, cols, outs = [dut.valid_i], [valid], [dut.chan_synced, dut._channels_synced.status]
        for c in range(nchan):
            r = getattr(dut, "data_in{}".format(c))
            o = getattr(dut, "data_out{}".format(c))
            ins += [r.raw, r.d, r.c, r.de]
            cols += [x[src[c]] for x in tx[c]]
            outs += [o.raw, o.d, o.c, o.de]
        if rep:
            sim.reset()
        out = sim.run_trace(sim.mask("pix") | sim.mask("sys"), ins, np.stack(cols, 1), outs)
        O = out[:, 2:].reshape(n, nchan, 4)
        D = O[:, :, 3]
        # the flag tells the truth
        allc, somec = (D == 0).all(axis=1), (D == 0).any(axis=1)
        f = out[:, 0]
        mis = somec[:-1] & ~allc[:-1]
        ctx.expect(not (f[1:][mis] == 1).any(), "{}: synced although the channels' data enables differ".format(job["name"]))
        ctx.expect(not (f[1:][valid[:-1] == 0] == 1).any(), "{}: synced without valid input".format(job["name"]))
        ok = allc[:-1] & (valid[:-1] == 1)
        ctx.expect((f[1:][ok] == 1).all(), "{}: not synced although all channels show control symbols".format(job["name"]))
        rise = np.nonzero(np.diff(f) == 1)[0]
        ctx.expect(all(ok[i] for i in rise), "{}: became synced outside of a common control period".format(job["name"]))
        # alignment: within each stretch of constant skew, after a few blanks
        ends = [x for x, _ in hist[1:]] + [n]
        for (x, v), e in zip(hist, ends):
            bl = [b for b in blanks if b[0] >= x]
            if len(bl) < 6:
                continue
            t0 = bl[5][0] + base + mx + depth + 2
            t1 = e
            if t1 - t0 < 200:
                continue
            lat = []
            for c in range(nchan):
                l = None
                for L in range(0, depth + 2):
                    idx = src[c][t0 - L:t1 - L]
                    if all((O[t0:t1, c, k] == tx[c][k][idx]).all() for k in range(4)):
                        l = L
                        break
                lat.append(l)
            if None in lat:
                c = lat.index(None)
                ctx.fail("{}: channel {} is not a delayed copy of its input {} blanking intervals after skews {} set in (depth {})".format(
                    job["name"], c, 5, v.tolist(), depth))
                return
            tot = [a + int(b) for a, b in zip(lat, v)]
            if not ctx.expect(len(set(tot)) == 1, "{}: channels with skews {} are delayed by {}: not aligned".format(job["name"], v.tolist(), lat)):
                return
            ctx.expect((f[t0:t1][valid[t0 - 1:t1 - 1] == 1][200:] == 1).all() or job["kind"] == "drop", "{}: not synced while aligned".format(job["name"]))
            ctx.count("skew histories aligned")
            ctx.count("aligned lines", len([b for b in bl if b[1] < t1]) - 5)
            if int(v.max()) == mx:
                ctx.count("maximum skew")
            ctx.state(depth, nchan, tuple(v.tolist()), job["seed"], rep, x)
            ctx.ev((t1 - t0)*nchan)
        ctx.expect(out[-1, 1] == f[-1] or f[-8:].min() != f[-8:].max(), "status register does not follow")
    ctx.sample("{}: depth {} channels {} skews {}".format(job["name"], depth, nchan, [v.tolist() for _, v in hist]))
    ctx.sanitizers(sim)
