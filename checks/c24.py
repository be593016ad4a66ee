"""enable, disable, restart, underflow accounting"""
import numpy as np
import gw, raster, vout
from streams import *

RULE = ("VideoOutCore enabled, disabled and re-enabled at random instants (before, during and long after draining, in mid-frame, "
        "during memory starvation, with the same or other parameters) with random clock ratios and CSR widths; delivered samples "
        "must be whole frames of parameter sets in effect, a disabled core must go idle within a bounded number of frames, and the "
        "underflow counter must equal the observed starved cycles; a case is a distinct (history step, frame)")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "the length matches the active pixels; legal frame parameters",
          "software updates the underflow counter no faster than the clock-crossing pulse synchroniser allows"]
MIN_EVENTS = 100000
MUST_OBSERVE = ("frames", "disables", "restarts before the core was idle", "restarts after idle", "underflow readings", "non-zero underflow readings",
                "idle cycles", "frames after fetching too much", "geometry changes while idle", "underflow readings beyond 2**24")
DRAIN = 10     # frames


def jobs(tier, seed):
    reps = 6 if tier == "quick" else 110
    j = []
    for k in range(reps):
        for mode in ("rgb", "ycbcr422", "raw"):
            for r in ("full", "half", "burst"):
                for mem in ("fast", "slow", "bursty"):
                    j.append(dict(name="{}-{}-{}-{}".format(mode, r, mem, k), mode=mode, r=r, mem=mem, seed=seed + 29*k))
            if k < 1 or tier != "quick" and k < 8:
                j.append(dict(name="{}-starved-{}".format(mode, k), mode=mode, r="full", mem="fast", seed=seed + 29*k, starve=(20, 22, 24)[("rgb", "ycbcr422", "raw").index(mode)], cost=30))
            for mem in ("fast", "slow"):
                j.append(dict(name="{}-{}-flush-{}".format(mode, mem, k), mode=mode, r=("full", "half", "burst")[k % 3], mem=mem, seed=seed + 29*k, flush=1))
    return j


MEM = {"fast": (256, 256, 2), "slow": (128, 160, 9), "bursty": (256, 256, 5)}


def flush(job, ctx, rng, cb, cd, words, newp):
    """whatever was fetched too much (length beyond the active area) is gone when the core is idle"""
    for k in range(8):
        p = newp()
        over = k % 2 == 0
        if over:
            wb = 1 << cb.shift
            p["length"] += wb*int(rng.choice([1, 2, rng.integers(1, 100), rng.integers(1, words(p) + 2)]))
            p["base"] = int(rng.integers(0, (1 << cb.aw)//2))*wb
        cb.set(**p)
        cb.log, cb.cands = [], []
        cb.enables = 0
        cb.enable(1)
        fr = raster.size(p)
        cb.b.ticks(int(rng.integers(1, 6*fr + 60)), cd)
        cb.enable(0)
        cb.take()
        for _ in range(60):
            cb.b.ticks(6*fr + 6*p["length"] + 400, cd)
            a = cb.take()
            if not a[:, 6].any() and not a[:, 0].any():
                break
        else:
            ctx.fail("{}: the core does not become idle after fetching {} bytes per frame of {} words".format(job["name"], p["length"], words(p)))
            return
        if not over:
            if job["mode"] == "raw":
                raw(job, ctx, cb)
            else:
                cb.check(job["name"])
            n = len(np.concatenate(cb.log))//fr
            ctx.count("frames after fetching too much", n)
            if ctx.violations:
                return


def starve(job, ctx, rng, cb, cd, newp):
    """the counter holds long starvations"""
    p = newp()
    cb.set(**p)
    cb.enable(1)
    cb.b.ticks(int(rng.integers(1, 3*raster.size(p))), cd)
    cb.sim[cb.dram.hold] = 1
    cb.sim.settle()
    cb.b.ticks(3000, cd)
    t = [cb.t]
    cb.b.write("underflow_enable", 1)
    cb.b.ticks(4)
    cb.b.ticks(8, cd)
    t.append(cb.t)
    n = (1 << job["starve"]) + int(rng.integers(1, 1 << 16))
    cb.b.log = False
    cb.b.ticks(n, cd)
    cb.b.log = True
    t.append(cb.t)
    cb.b.write("underflow_update", 1)
    cb.b.ticks(12)
    cb.b.ticks(12, cd)
    cb.b.ticks(4)
    t.append(cb.t)
    got = cb.b.read("underflow_counter")
    ctx.ev(n)
    ctx.count("underflow readings")
    ctx.count("underflow readings beyond 2**{}".format(job["starve"]))
    ctx.expect(t[2] - t[1] - 4 <= got <= t[3] - t[0], lambda: "{}: underflow counter reads {} after {} starved cycles".format(job["name"], got, t[2] - t[1]))


def run(job, ctx):
    rng = npr(job)
    mode = job["mode"]
    cd = "sys" if rng.random() < .15 else "pix"
    depth = int(rng.choice([8, 16, 64, 512]))
    cb = vout.CoreBench(ctx, rng, mode, depth, cd, csr_width=int(rng.choice([8, 32])))
    cb.memory(*MEM[job["mem"]])
    cb.backpressure(job["r"])
    wb = 1 << cb.shift
    state = {}
    raws = []

    def words(p):
        return p["hres"]*p["vres"] if mode != "raw" else raster.size(p)

    def newp(big=True):
        p = raster.geometry(rng, 25, 7)
        p["base"] = int(rng.integers(0, (1 << cb.aw) - words(p)))*wb
        p["length"] = words(p)*wb
        return p

    if job.get("flush"):
        flush(job, ctx, rng, cb, cd, words, newp)
        ctx.sanitizers(cb.sim)
        return
    if job.get("starve"):
        starve(job, ctx, rng, cb, cd, newp)
        ctx.sanitizers(cb.sim)
        return

    def step(n):
        while n > 0:
            k = min(n, int(rng.integers(20, 400)))
            if job["mem"] == "bursty":
                cb.sim[cb.dram.hold] = int(rng.random() < .4)
                cb.sim.settle()
            cb.b.ticks(k, cd)
            n -= k
        if job["mem"] == "bursty":
            cb.sim[cb.dram.hold] = 0
            cb.sim.settle()

    def drain():
        a = cb.take()
        raws.append(a[:, [0, 6]])
        return a

    def invalid():
        """cumulative invalid cycles, by cycle"""
        drain()
        v = np.concatenate(raws)[:, 0]
        return np.concatenate([[0], np.cumsum(v == 0)])

    slow = 5 if (job["mem"] != "fast" or job["r"] != "full") else 2
    p = newp()
    cb.set(**p)
    cb.b.ticks(50)
    und = None
    fails0 = lambda: len(ctx.violations)
    for k in range(26):
        if fails0():
            break
        # start
        cb.enable(1)
        fr = raster.size(cb.params)
        if rng.random() < .3:
            und = None
            cb.b.write("underflow_enable", 0)
            cb.b.ticks(12, cd)
            cb.b.ticks(12)
        if und is None:
            t0 = cb.t
            cb.b.write("underflow_enable", 1)
            cb.b.ticks(4)
            cb.b.ticks(8, cd)
            und = (t0, cb.t)
        x = rng.random()
        if x < .25:
            step(int(rng.integers(1, 12)))
        elif x < .6:
            step(int(rng.integers(1, 3*fr + 2)))
        else:
            step(int(rng.integers(1, 8*fr*slow)))
        if rng.random() < .7 and not cb.sim[cb.dram.hold]:
            t1 = cb.t
            cb.b.write("underflow_update", 1)
            cb.b.ticks(12)
            cb.b.ticks(12, cd)
            cb.b.ticks(4)
            t2 = cb.t
            got = cb.b.read("underflow_counter")
            c = invalid()
            lo = int(c[max(t1 - 4, und[1])] - c[und[1]]) if t1 - 4 > und[1] else 0
            hi = int(c[t2] - c[und[0]])
            ctx.count("underflow readings")
            ctx.count("non-zero underflow readings", got > 0)
            ctx.expect(lo <= got <= hi, lambda: "{}: underflow counter reads {}, between {} and {} cycles were starved since it was enabled".format(job["name"], got, lo, hi))
        # stop
        cb.enable(0)
        ctx.count("disables")
        x = rng.random()
        if x < .35:
            step(int(rng.integers(1, 3*fr + 2)))
            ctx.count("restarts before the core was idle")
            if rng.random() < .5 and mode != "raw":
                n = words(cb.params)
                cb.set(base=int(rng.integers(0, (1 << cb.aw) - n))*wb)
        else:
            drain()
            mult = 1 if job["mem"] == "fast" and job["r"] == "full" else 12
            step(DRAIN*mult*fr + 400)
            drain()
            step(3*fr + 200)
            a = drain()
            ctx.count("idle cycles", len(a))
            ctx.expect(not a[:, 6].any(), "{}: memory commands long after disabling".format(job["name"]))
            ctx.expect(not a[:, 0].any(), "{}: output valid long after disabling".format(job["name"]))
            ctx.count("restarts after idle")
            if rng.random() < .6:
                q = newp()
                if mode == "raw":
                    state.setdefault("switch", []).append(sum(len(x) for x in cb.log))
                cb.set(**q)
                ctx.count("geometry changes while idle")
    drain()
    if mode == "raw":
        raw(job, ctx, cb)
    else:
        n = cb.check(job["name"])
        if not ctx.violations:
            # after an idle period nothing of the past may show
            ctx.sample("{}: {} frames, {} enables".format(job["name"], n, cb.enables))
    ctx.sanitizers(cb.sim)


def raw(job, ctx, cb):
    """the samples are the memory words of whole frames of the parameter sets in effect, one after the other"""
    T = np.concatenate(cb.log)
    ctx.ev(len(T))
    pos, ci = 0, 0
    while pos < len(T):
        ok = False
        far = 0
        for c in range(ci, len(cb.cands)):
            p = cb.cands[c][0]
            if cb.cands[c][1] > T[pos, 4]:
                break
            n = raster.size(p)
            w = cb.word(p["base"], n)
            got = T[pos:pos + n, 3]
            bad = np.nonzero(got != w[:len(got)])[0]
            if not len(bad):
                ok = True
                break
            far = max(far, int(bad[0]))
        if not ok:
            ctx.fail("{}: raw sample {} (cycle {}) does not continue a frame of the parameters in effect".format(job["name"], pos + far, T[pos + far, 4]))
            return
        ci = c
        pos += n
        ctx.count("frames")
        ctx.state(tuple(p.values()), pos % 8, job["name"])
