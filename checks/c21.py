"""output timing generator"""
import numpy as np
import gw, raster
from streams import *

RULE = ("random legal frame parameters (small and boundary geometries, common video modes, 12-bit extremes) queued back "
        "to back or with gaps in which the parameter inputs are garbage, under random downstream stalls; every accepted "
        "output sample is compared with the raster the parameters define; a case is a distinct (parameters, schedule) frame")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics",
          "legal parameters: 0 < res <= sync_start < sync_end <= scan (a line has scan+1 samples)"]
MIN_EVENTS = 1000000
MUST_OBSERVE = ("frames", "restarts after a gap", "parameter changes between frames")


def jobs(tier, seed):
    reps = 4 if tier == "quick" else 60
    j = [dict(name="small-{}-{}".format(r, k), kind="small", r=r, n=60, seed=seed + 17*k) for k in range(reps) for r in PATTERNS]
    j += [dict(name="std-{}".format(i), kind="std", i=i, r="almost", n=2, seed=seed, cost=8) for i in range(len(raster.STANDARD))]
    j += [dict(name="max-{}".format(i), kind="max", i=i, r="full", n=1, seed=seed, cost=20) for i in range(1 if tier == "quick" else 6)]
    j += [dict(name="long-{}-{}".format(a, i), kind="long", axis=a, r="almost" if i % 2 else "full", n=10, seed=seed + 29*i, cost=6) for a in "hv" for i in range(1 if tier == "quick" else 12)]
    return j


def run(job, ctx):
    from litevideo.output.core import TimingGenerator
    rng = npr(job)
    dut = ctx.build(TimingGenerator)
    sim = ctx.build(gw.Sim, dut)
    ins = [getattr(dut.sink, n) for n in raster.NAMES]
    outs = [dut.source.hsync, dut.source.vsync, dut.source.de, dut.source.last]
    ps = []
    for k in range(job["n"]):
        if job["kind"] == "small":
            x = rng.random()
            if ps and x < .4:
                p = dict(ps[-1])
            elif x < .8:
                p = raster.geometry(rng, 30, 9)
            elif x < .9:
                p = raster.geometry(rng, 3, 3)
            else:
                p = raster.geometry(rng, 700, 3) if rng.random() < .5 else raster.geometry(rng, 3, 300)
        elif job["kind"] == "long":
            # one axis up to its 12 bits, long pulses, each value with any upper bits
            p = raster.geometry(rng, 4, 4)
            x = np.sort(rng.integers(2048 if k % 3 == 2 else 1, 4096, 4))
            x[2] = max(x[2], x[1] + 1)
            x[3] = max(x[3], x[2])
            if x[3] < 4096:
                p.update(zip([y for y in raster.NAMES if y[0] == job["axis"]], [int(y) for y in x]))
        elif job["kind"] == "std":
            p = dict(raster.STANDARD[job["i"]])
        else:
            p = dict(hscan=4095, vscan=int(rng.integers(2000, 4095)) if job["i"] else 4095, hres=4093, hsync_start=4093, hsync_end=4095,
                     vres=1500, vsync_start=1600, vsync_end=1601)
            if not job["i"]:
                p["vsync_end"] = 4095
        assert raster.valid(p)
        ps.append(p)
    total = sum(raster.size(p) for p in ps)
    tok = np.array([[p[n] for n in raster.NAMES] for p in ps])
    rp = pattern(job["r"], rng)
    for vk in (("full", "gaps") if job["kind"] == "small" else ("full",)):
        vp = np.ones(1, np.uint8)
        if vk == "gaps":
            vp = (rng.random(997) < .25).astype(np.uint8)
            vp[0] = 1
        sim.reset()
        r = sim.run_stream(1, dut.sink, dut.source, tok, vp, rp, int(total/rp.mean()*1.5 + 5000 + 40*job["n"]), drain=8,
                           in_fields=ins, out_fields=outs, seed=int(rng.integers(1, 1 << 30)), cap=int(total + 64*job["n"] + 4096))
        out = r["out"]
        what = "{} {} ready={}".format(job["name"], vk, job["r"])
        if r["stab"]:
            ctx.fail("{}: output changed while stalled, cycle {}".format(what, r["stab_cycle"]))
        if not ctx.expect(len(r["accepted"]) == len(ps), "{}: {} of {} parameter sets consumed".format(what, len(r["accepted"]), len(ps))):
            continue
        acc_out = np.searchsorted(out[:, -1], r["accepted"], side="right")    # samples delivered up to each consumption
        pos = 0
        for k, p in enumerate(ps):
            ref = raster.frame(p)
            end = acc_out[k]
            got = out[pos:end]
            lead = len(got) - len(ref)
            restart = k == 0 or vk == "gaps"
            ok = ctx.expect(0 <= lead <= (4 if restart else 0), lambda: "{}: frame {} {} has {} samples before its parameters are released, expected {}".format(what, k, p, len(got), len(ref)))
            if not ok:
                break
            blank = got[:lead, :3]
            ctx.expect(not blank.any(), lambda: "{}: frame {}: sync or de active before the first pixel: {}".format(what, k, blank.tolist()))
            bad = np.nonzero((got[lead:, :3] != ref).any(axis=1))[0]
            if len(bad):
                i = bad[0]
                ctx.fail("{}: frame {} {}: sample h={} v={} has hsync,vsync,de={} expected {}".format(
                    what, k, p, i % (p["hscan"] + 1), i//(p["hscan"] + 1), got[lead + i, :3].tolist(), ref[i].tolist()))
                break
            if not (got[:-1, 3].any() == False and got[-1, 3] == 1):
                ctx.fail("{}: frame {}: last is not exactly on the final sample".format(what, k))
                break
            ctx.ev(len(ref))
            ctx.count("frames")
            if k and ps[k] != ps[k - 1]:
                ctx.count("parameter changes between frames")
            if lead and k:
                ctx.count("restarts after a gap")
            ctx.state(tuple(p.values()), vk, job["r"])
            pos = end
        ctx.sample("{}: {} -> {} samples".format(what, ps[0], len(out)))
    ctx.sanitizers(sim)
