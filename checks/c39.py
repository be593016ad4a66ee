"""the output over reprogramming of the pixel clock"""
import numpy as np
import gw, raster, phy, bench, tmds
import c25
from streams import *

RULE = ("VideoOut in every mode on both families through sessions in which software disables it, at once or later resets the clock generator (clock stopped, running or absent for a while; unlocked in between), "
        "programs other parameters and another pixel clock and enables it again; the frames of each session must be exact within a few frames as in C25, nothing but whole frames of parameter sets "
        "in effect fetched, and nothing fetched while disabled; a case is a distinct session")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "vendor serializers behave as in their data sheets", "reads outstanding when the pixel domain is reset are dropped by the memory port"]
MIN_EVENTS = 20000
MUST_OBSERVE = ("sessions", "clock changes", "clock stopped", "clock runs on", "clock lost while enabled", "clock lost while draining", "programmed before lock", "idle periods", "pixels checked", "spartan-6 pixels", "raw samples", "vga frames")


def jobs(tier, seed):
    reps = 4 if tier == "quick" else 60
    return [dict(name="{}-{}-{}".format(dev, mode, k), dev=dev, mode=mode, vga=8 if k % 4 == 3 and mode != "raw" else 0, seed=seed + 53*k)
            for k in range(reps) for mode in ("rgb", "ycbcr422", "raw") for dev in ("xc7a35t", "xc6slx45")]


def run(job, ctx):
    rng = npr(job)
    mode, name = job["mode"], job["name"]
    ob = phy.OutBench(ctx, rng, job["dev"], mode, int(rng.choice([32, 64, 512])), int(rng.choice([8, 32])), [], job["vga"])
    b, sim = ob.b, ob.sim
    s7 = not ob.s6
    port = ob.port
    extra = [port.cmd.valid, port.cmd.ready, port.cmd.addr]
    n0 = len(b.trace)
    b.trace += extra
    pixdoms = sum(m for k, m in b.bits.items() if k != "sys")
    wb = ob.dw//8

    def lock():
        """another pixel clock runs, and is reported to do so"""
        x = 20.*float(rng.choice([.31, .5, .77, 1., 1.3, 2., 2.9]))
        q = {"sys": 10., "pix": x}
        if ob.s6:
            q["pix2x"] = x/2
            b.sched = phy.PixSchedule(q, rng, 0.)
        else:
            b.sched = bench.Schedule(q, rng, .2, True)
        if ob.s6:
            # (the two edges of a pixel alternate from the first one on)
            for d in b.drv:
                d[3] = 0
        b.buf = b.buf[:0]
        b.stopped = 0
        b.ticks(int(rng.integers(4, 30)), "pix")
        b.logs, b.masks = [], []
        phy.locked(sim, 1)
        ctx.count("clock changes")

    def idle(k):
        """disabled: nothing is fetched or shown"""
        b.ticks(8, "pix")
        b.logs, b.masks = [], []
        b.ticks(int(rng.integers(50, 400)), "pix")
        c = cmds()
        ctx.ev()
        ctx.count("idle periods")
        ctx.expect(not len(c), lambda: "{}: session {}: the disabled output fetches {} words from {:#x} on".format(name, k, len(c), int(c[0])))
        if mode != "raw" and not job["vga"]:
            b.logs = [x[:, :n0] for x in b.logs]
            sym = ob.take()
            de, _, _ = tmds.decode(sym)
            ctx.expect(not de.any(), "{}: session {}: the disabled output shows pixels".format(name, k))
        b.logs, b.masks = [], []

    def cmds():
        a = np.concatenate(b.logs) if b.logs else np.zeros((0, n0 + 3), np.int64)
        m = np.concatenate(b.masks) if b.masks else np.zeros(0, np.int64)
        a = a[(m & b.bits["pix"]) != 0]
        return a[(a[:, n0] == 1) & (a[:, n0 + 1] == 1), n0 + 2]
    fresh = True               # the core knows nothing of earlier parameters
    on = 0
    for k in range(7):
        p = raster.geometry(rng, 40, 10)
        if mode == "ycbcr422":
            p["hres"] += p["hres"] & 1
            d = max(0, p["hres"] + 4 - p["hscan"])
            for n in ("hsync_start", "hsync_end", "hscan"):
                p[n] += d + 1
        total = raster.size(p)
        words = p["hres"]*p["vres"] if mode != "raw" else total
        base = int(rng.integers(0, (1 << ob.aw) - words))
        ob.memory(256, 256, int(rng.integers(2, 10)))
        # parameters (and enable) before lock or after
        early = k and s7 and rng.random() < .5

        def program():
            ob.program(p, base*wb, words*wb)
            if not on or rng.random() < .5:
                ob.w("enable", 1)
        if early:
            program()
            b.ticks(int(rng.integers(1, 40)))
            ctx.count("programmed before lock")
        elif on:
            # enabled all the time: what is programmed while locked takes effect piece by piece
            ob.w("enable", 0)
            on = 0
        if k:
            lock()
            if not early and rng.random() < .6:
                b.ticks(int(rng.integers(1, 3*total)), "pix")
                if not on:
                    if not fresh:
                        b.ticks(12*last + 1200, "pix")
                    idle(k)
        if not early:
            b.logs, b.masks = [], []
            program()
        b.ticks(2*total + 400, "pix")
        c = cmds()
        bad = (c < base) | (c >= base + words)
        ctx.ev(len(c))
        ctx.expect(len(c) > 0, "{}: session {}: nothing is fetched after the pixel clock has changed".format(name, k))
        if fresh:
            ctx.expect(not bad.any(), lambda: "{}: session {}: {} of {} words fetched after the change of the pixel clock are not of the frame at {:#x}+{:#x}: {:#x}".format(
                name, k, bad.sum(), len(c), base, words, int(c[bad][0])))
        else:
            b.ticks(12*total + 12*last, "pix")
        b.logs, b.masks = [], []
        b.ticks(2*total + total//2 + 20, "pix")
        for i in range(len(b.logs)):
            b.logs[i] = b.logs[i][:, :n0]
        b.trace = b.trace[:n0]
        ok = c25.look(dict(job, name="{} (session {})".format(name, k)), ctx, ob, p, base, words, 0)
        b.trace = b.trace + extra
        ctx.count("sessions")
        ctx.state(name, k)
        if not ok:
            break
        # the clock goes
        on = int(s7 and rng.random() < .3)
        if not on:
            ob.w("enable", 0)
            if rng.random() < .5:
                b.ticks(int(rng.choice([1, 50, 500])))
                ctx.count("clock lost while draining")
            else:
                b.ticks(12*total + 1200, "pix")
                idle(k)
        else:
            ctx.count("clock lost while enabled")
        last = total
        if s7:
            ob.w("mmcm_reset", 1)
        b.ticks(int(rng.integers(1, 5)))
        stop = rng.random() < .5
        if stop and rng.random() < .5:
            b.stopped = pixdoms
        phy.locked(sim, 0)
        if stop:
            b.ticks(int(rng.integers(0, 5)))
            b.stopped = pixdoms
        ctx.count("clock stopped" if stop else "clock runs on")
        b.ticks(int(rng.integers(5, 300)))
        if s7:
            for _ in range(int(rng.integers(0, 4))):
                ob.w("mmcm_adr", int(rng.integers(0, 128)))
                ob.w("mmcm_dat_w", int(rng.integers(0, 1 << 16)))
                ob.w("mmcm_write", 1)
            ob.w("mmcm_reset", 0)
        fresh = s7
    ctx.sanitizers(sim)
