"""terminal: memory seen by software"""
import os, tempfile, shutil
import numpy as np
from migen import *
import gw
from streams import *

RULE = ("Wishbone masters with random wait states, bursts of reads and writes, idle gaps and dropped strobes, at any ratio to the running display "
        "clock; each access is acknowledged exactly once, reads return the last write (initially the text and font files), and the memory ends up as "
        "the model says; a case is a distinct (address, previous operation)")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "a master holds its request until it is acknowledged; addresses below 8896"]
MIN_EVENTS = 100000
MUST_OBSERVE = ("reads", "writes", "read after write", "idle cycles with bus noise", "initial bytes read", "rejected init files", "display clock cycles")
DEPTH = 8896


def jobs(tier, seed):
    n = 12 if tier == "quick" else 120
    return [dict(name="{}-{}".format(k, i), kind=k, seed=seed + i) for i in range(n) for k in ("default", "empty", "file")]


def run(job, ctx):
    import litevideo.terminal.core as tc
    rng = npr(job)
    d = os.path.dirname(tc.__file__)
    model = np.zeros(DEPTH, np.int64)
    scratch = None
    try:
        if job["kind"] == "default":
            dut = ctx.build(tc.Terminal)
            model[:] = np.frombuffer(open(d + "/screen-init.bin", "rb").read() + open(d + "/cp437.bin", "rb").read(), np.uint8)
        elif job["kind"] == "empty":
            dut = ctx.build(tc.Terminal, font_filename="", screen_init_filename="")
        else:
            scratch = tempfile.mkdtemp(prefix="c30.")
            model[:] = rng.integers(0, 256, DEPTH)
            open(scratch + "/s", "wb").write(bytes(model[:4800].tolist()))
            open(scratch + "/f", "wb").write(bytes(model[4800:].tolist()))
            for nm, sz in (("s", 4800), ("f", 4096)):
                for dlt in (-1, 1, -sz):
                    open(scratch + "/bad", "wb").write(bytes(sz + dlt))
                    kw = dict(screen_init_filename=scratch + "/s", font_filename=scratch + "/f")
                    kw["screen_init_filename" if nm == "s" else "font_filename"] = scratch + "/bad"
                    try:
                        tc.Terminal(**kw)
                        ctx.fail("an init file of {} bytes instead of {} is accepted".format(sz + dlt, sz))
                    except ValueError:
                        ctx.count("rejected init files")
            dut = ctx.build(tc.Terminal, font_filename=scratch + "/f", screen_init_filename=scratch + "/s")
    finally:
        if scratch:
            shutil.rmtree(scratch, ignore_errors=True)
    sim = ctx.build(gw.Sim, dut, clocks=("sys", "vga"))
    b = dut.bus
    ms, mv = sim.mask("sys"), sim.mask("vga")
    pv = float(rng.choice([0, .3, 1]))
    psys = float(rng.choice([.3, 1, 1]))

    ops = []
    hot = rng.integers(0, DEPTH, 12)
    for k in range(9000):
        x = rng.random()
        a = int(rng.choice(hot)) if x < .4 else (int(rng.integers(0, DEPTH)) if x < .9 else int(rng.choice([0, 1, 4798, 4799, 4800, 4801, DEPTH - 1, DEPTH - 2])))
        ops.append((int(rng.random() < .5), a, int(rng.integers(0, 256)), int(rng.choice([0, 0, 0, 1, 2, 9]))))
    # the design acknowledges in a fixed or variable time: cycle by cycle master
    written = set()
    prev = {}
    acks = 0
    ins = [b.cyc, b.stb, b.we, b.adr, b.dat_w, b.sel]
    outs = [b.ack, b.dat_r]

    def cycle(row):
        # sys cycle, with the display clock running at its own pace
        out = sim.run_sched(np.array([ms | (mv if rng.random() < pv else 0)]), ins, np.array([row]), outs)[0]
        if psys < 1:
            for i in range(int(rng.geometric(psys)) - 1):
                sim.run_sched(np.array([mv]), ins, np.array([row]), outs)
                ctx.count("display clock cycles")
        return out
    # burst through run_sched in chunks is not possible (ack dependent), but cheap enough
    nops = 0
    for we, a, v, gap in ops[:3000]:
        for g in range(gap):
            n = rng.integers(0, 3)
            # strobe without cycle or cycle without strobe: nothing may happen
            row = (int(n == 1), int(n == 2), int(rng.integers(0, 2)), int(rng.integers(0, DEPTH)), int(rng.integers(0, 256)), 1)
            out = cycle(row)
            if out[0]:
                ctx.fail("{}: acknowledge without a request".format(job["name"]))
                return
            ctx.count("idle cycles with bus noise")
        t = 0
        while True:
            out = cycle((1, 1, we, a, v, 1))
            if out[0]:
                break
            t += 1
            if t > 64:
                ctx.fail("{}: {} of {} is never acknowledged".format(job["name"], "write" if we else "read", a))
                return
        if we:
            model[a] = v
            written.add(a)
            ctx.count("writes")
        else:
            if out[1] != model[a]:
                ctx.fail("{}: reading {} gives {:02x}, must be {:02x} ({})".format(job["name"], a, out[1], model[a],
                         "last write" if a in written else "initial contents"))
                return
            ctx.count("reads")
            ctx.count("read after write" if a in written else "initial bytes read")
        ctx.state(a, we, prev.get(a))
        prev[a] = we
        nops += 1
        if pv:
            ctx.count("display clock cycles")
    # one acknowledge per access
    out = cycle((0, 0, 0, 0, 0, 1))
    ctx.expect(not out[0], "{}: acknowledge after the last access".format(job["name"]))
    # read all of it back
    rows = np.repeat(np.arange(DEPTH), 2)
    st = np.zeros((len(rows), 6), np.int64)
    st[:, :2] = 1
    st[:, 3] = rows
    st[:, 5] = 1
    i = 0
    out = sim.run_trace(ms | mv, ins, st, outs)
    got = np.full(DEPTH, -1)
    k = np.nonzero(out[:, 0] == 1)[0]
    if not (np.bincount(rows[k], minlength=DEPTH) == 1).all():
        # slower design: generic master
        for a in range(DEPTH):
            t = 0
            while True:
                o = cycle((1, 1, 0, a, 0, 1))
                t += 1
                if o[0] or t > 64:
                    break
            got[a] = o[1]
    else:
        got[rows[k]] = out[k, 1]
    bad = np.nonzero(got != model)[0]
    ctx.expect(not len(bad), lambda: "{}: byte {} reads {:02x} at the end, must be {:02x}: {} ({} bytes wrong)".format(
        job["name"], bad[0], got[bad[0]], model[bad[0]], "written" if int(bad[0]) in written else "never written", len(bad)))
    ctx.count("reads", DEPTH)
    ctx.count("initial bytes read", DEPTH - len(written))
    ctx.ev(nops + DEPTH)
    ctx.sample("{}: {} random accesses, {} bytes read back".format(job["name"], nops, DEPTH))
    ctx.sanitizers(sim)
