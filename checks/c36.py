"""C36 no register depends on a signal of another clock at the moment it changes (clock domain crossings are race free)"""
import importlib
import numpy as np
import gw, vout, raster, rxlink, rxphy
from streams import npr
from fw import Ctx, Bug, Inconclusive

RULE = ("the workloads of the properties of every design with several clocks (capture, DMA, EDID, output core, driver, error counters, data capture, channel "
        "synchronisation, clocking, complete receiver and transmitter) run with a race monitor: when registers of an unrelated clock domain, "
        "primitive outputs or asynchronous pads that reach a domain's registers without a synchroniser changed since that domain's last edge, the edge is executed a "
        "second time with old and new bits mixed, and a different next state is a race (a flip-flop that only re-times one bit is a "
        "synchroniser stage and may differ); an event is a bit that changed in a synchroniser or an edge of a domain judged with mixed bits; a case is a distinct crossing (design, "
        "domain, register)")
ASSUME = ["clocks derived from one source (pixel clock and its multiples) are related and not judged", "a crossing counts as racy only if it was seen to change the next state"]
MIN_EVENTS = 20000
MUST_OBSERVE = ("designs", "metastability injections", "synchroniser bits", "clock domain pairs", "registers polled", "primitive outputs")

# property, kinds of job (substrings), how many of each kind (quick, thorough)
WORK = [
    ("C13", ("static", "jump", "drop", "depth"), 1, 8),
    ("C17", ("rgb-", "ycbcr422-"), 6, 60),
    ("C19", ("fast-fast", "slow-stall", "lazy-slow"), 1, 10),
    ("C20", ("tri", "split"), 4, 40),
    ("C22", ("rgb-fast", "raw-starved", "ycbcr422-bursty"), 1, 8),
    ("C23", ("",), 4, 30),
    ("C24", ("rgb-full", "raw-half", "ycbcr422-burst", "flush"), 1, 8),
    ("C25", ("xc7a35t", "xc6slx45"), 3, 20),
    ("C28", ("bits6", "bits8"), 2, 10),
    ("C29", ("",), 2, 10),
    ("C32", ("s7-data", "s6-data", "s7-ctl", "s6-ctl", "s7-phase", "s6-phase"), 2, 12),
    ("C33", ("xc7-rgb", "xc6-rgb", "xc7-ycbcr422", "xc6-ycbcr422", "errors"), 1, 6),
    ("C34", ("s6in", "s7in", "s7split", "s6out", "s7out"), 1, 6),
    ("C35", ("",), 6, 24),
    ("C38", ("overflow", "xc7", "xc6"), 1, 6),
    ("C39", ("xc7", "xc6"), 3, 12),
]


PORTS = {"IDELAYE2": ("CNTVALUEOUT",), "IODELAY2": ("BUSY",), "ISERDES2": ("VALID", "INCDEC")}


def jobs(tier, seed):
    j = []
    for pid, kinds, q, t in WORK:
        n = q if tier == "quick" else t
        all_ = importlib.import_module("c" + pid[1:]).jobs(tier, seed)
        for k in kinds:
            for x in [x for x in all_ if k in x["name"]][:n]:
                j.append(dict(name="{}:{}".format(pid, x["name"]), pid=pid, sub=x, cost=x.get("cost", 1)))
    for i in range(4 if tier == "quick" else 60):
        for d in ("xc7", "xc6", "core"):
            j.append(dict(name="poll:{}-{}".format(d, i), pid="poll", sub=dict(name="poll", dev=d, seed=seed + 17*i), cost=3))
    return j


def poll(job, ctx):
    """complete receiver or transmitter with software that reads all registers all the time"""
    rng = npr(job)
    n = 30000
    if job["dev"] in ("xc7", "xc6"):
        mode = str(rng.choice(["rgb", "ycbcr422"]))
        lb = rxlink.LinkBench(ctx, rng, job["dev"], mode, bool(rng.integers(0, 2)), (), dw=64, csr_width=int(rng.choice([8, 32])),
                              edid=True, sysper=float(rng.uniform(3, 20)))
        b, host, cd = lb.b, lb.host, lb.slow
        skip = ()
        syms = []
        for k in range(6):
            p = rxlink.hdmi_geometry(rng, 2, 20, 4, lb.hdmi)
            for _ in range(2):
                syms.append(rxlink.frame_symbols(rng, p, int(rng.integers(0, 4)), rng.integers(0, 256, (raster.size(p), 3)), lb.hdmi))
        bits = [rxphy.bits_of(np.concatenate([s[i] for s in syms]), 10) for i in range(3)]
        sigs, rows = [], []
        for l, x in zip(lb.lanes, bits):
            x = np.concatenate([rng.integers(0, 2, int(rng.integers(0, 40))), x])[:len(bits[0]) - 40]
            a = int(rng.integers(0, len(x)))
            x[a:a + 3000] = rng.integers(0, 2, len(x[a:a + 3000]))
            # bit slips: the alignment changes again and again
            cut = np.sort(rng.integers(0, len(x), 6))
            x = np.concatenate([q[:max(0, len(q) - 7)] if i < 6 else q for i, q in enumerate(np.split(x, cut))])[:len(bits[0]) - 100]
            rows.append(l.rows(x))
            sigs += l.signals()
        b.drive(sigs, np.concatenate(rows, 1), cd, cyclic=True)
        # whatever else the primitives of the lanes may report, and the pads of the EDID slave
        rest = [o for i in lb.sim.instances if i.of in PORTS for p, o in i.outputs.items() if p in PORTS[i.of] and all(o is not x for x in sigs)]
        ctx.count("primitive outputs", len(rest))
        b.drive(rest, np.stack([np.repeat(rng.integers(0, 1 << len(o), n//64 + 1), 64)[:n] for o in rest], 1), cd, cyclic=True)
        pads = [lb.pads.scl, lb.pads.hpd_notif] + [t[3] for t in lb.sim.tristates]
        b.drive(pads, np.stack([np.repeat(rng.integers(0, 2, n//50 + 1), 50)[:n] for _ in pads], 1), cd, cyclic=True)
        lb.w("frame_size", 8*int(rng.integers(1, 20)))
        writes = ("phase_reset", "wer_update", "overflow", "slot0_status", "slot1_status", "dvimode", "dly_ctl", "ev_pending")
    else:
        cb = vout.CoreBench(ctx, rng, str(rng.choice(["rgb", "ycbcr422", "raw"])), 16, "pix", csr_width=int(rng.choice([8, 32])))
        b, host = cb.b, cb.top
        p = raster.geometry(rng, 20, 6)
        cb.memory(*((256, 256, 2), (128, 160, 9), (60, 60, 20))[int(rng.integers(3))])
        cb.set(base=0, length=p["hres"]*p["vres"] << cb.shift, **p)
        cb.enable()
        skip = ("underflow_counter",)           # only valid some time after an update
        b.write("underflow_enable", 1)
        writes = ("enable", "underflow_update", "underflow_update", "underflow_enable", "initiator_base")
    words = [a for c, l in host.words.items() if not c.endswith(skip or ("-",)) for a in l]
    wr = [(c.name, c.size) for x in writes for c in host.csrs if c.name.endswith(x)]
    ctx.count("registers polled", len(words))
    for _ in range(60):
        b.drive([host.bus.adr], rng.choice(words, n), "sys", cyclic=True)
        b.ticks(int(rng.integers(50, 900)))
        b.drv = [d for d in b.drv if d[0][0] is not host.bus.adr]
        name, size = wr[int(rng.integers(len(wr)))]
        b.write(name, int(rng.integers(0, 2)) if size < 3 else int(rng.integers(0, 1 << min(size, 20))))
        b.logs, b.masks = [], []


def run(job, ctx):
    sub = Ctx(job["sub"])
    gw.Sim.registry = sims = []
    try:
        if job["pid"] == "poll":
            poll(job["sub"], sub)
            for k in ("registers polled", "primitive outputs"):
                ctx.count(k, sub.counts[k])
        else:
            importlib.import_module("c" + job["pid"][1:]).run(job["sub"], sub)
    except (Bug, Inconclusive):
        ctx.count("workloads ended early")
    finally:
        gw.Sim.registry = None
    if sub.violations:
        ctx.count("workloads that their own property rejects")
    for k, s in enumerate(sims):
        ctx.count("designs")
        ctx.count("engine cycles", s.cycles())
        ctx.count("metastability injections", s.jitter_events())
        ctx.count("edges judged with mixed bits", s._rc_chk.value)
        ctx.ev(s.jitter_events() + s._rc_chk.value)
        for c in s.lo.cdc:
            ctx.count("synchroniser bits", len(c.reg))
            ctx.state(job["pid"], "sync", gw._path(c.reg), len(c.reg))
        ctx.count("clock domain pairs", len(s.roots)*(len(s.roots) - 1)//2)
        for d, f in s.foreign.items():
            for x in f:
                ctx.count("direct crossings")
                ctx.state(job["pid"], d, gw._path(x))
                ctx.sample("{}: {} is read directly by domain {}".format(job["name"], gw._path(x), d))
        for d, t, n in s.short_syncs():
            ctx.fail("{}: logic of clock domain '{}' uses {} behind a single synchroniser stage, which sampled {} changes of another clock's signal".format(job["name"], d, t, n))
        for d, n, src in s.rst_releases():
            ctx.fail("{}: the reset of clock domain '{}' was released {} times at any moment by {}, without a synchroniser".format(job["name"], d, n, ", ".join(src)))
        for d, t, n, src in s.races():
            ctx.fail("{}: register {} of clock domain '{}' took a value that depends on how the simultaneous change of {} (another clock) is seen, {} times".format(
                job["name"], t, d, ", ".join(src) or "an unrelated clock domain", n))
