"""clock ratios, lock and reset"""
import numpy as np
from fractions import Fraction
from migen import *
import gw, bench, rxphy, phy, clocktree
from fw import Bug
from streams import *
from c34 import make, Regs

RULE = ("clock trees of both families, traced from every clock domain through data-sheet models of buffers, PLLs and DCMs down to the pad or board clock they come from (ratio, phase, "
        "polarity, feedback); then random histories of lock and PLL reset with all clocks running: reset of the pixel domains and the lock registers are observed at every edge; a case is a "
        "distinct (configuration, domain) or lock transition")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "vendor primitives behave as in UG472 and UG382", "PLLs in their initial configuration"]
MIN_EVENTS = 20000
MUST_OBSERVE = ("clock domains", "lock lost", "lock gained", "s6 in", "s7 in", "s7 in split", "s6 out", "s7 out", "reset writes", "locked read 0", "locked read 1", "inverted clock pad",
                "complete receiver", "complete driver", "serializer clocks", "s6 external")

RATIOS = {
    "s6in": dict(pix=1, pix_o=1, pix2x=2, pix10x=10),
    "s7in": dict(pix=1, pix_o=1, pix1p25x=Fraction(5, 4), pix5x=5, pix5x_o=5),
    "s7split": dict(pix=1, pix_o=1, pix1p25x=Fraction(5, 4), pix5x=5, pix5x_o=5),
    "s6out": dict(pix2x=2, pix10x=10),
    "s7out": dict(pix5x=5),
}


def jobs(tier, seed):
    n = 6 if tier == "quick" else 40
    return [dict(name="{}-{}".format(k, i), kind=k, i=i, seed=seed + i) for i in range(n) for k in ("s6in", "s7in", "s7split", "s6out", "s7out", "s6ext")]


def external(job, ctx, rng):
    """a Spartan-6 output that shares the PLL of another one"""
    from litevideo.output.driver import Driver
    pads, e = phy.hdmi_pads(), phy.ExternalClocking()
    host = bench.Host(ctx.build(Driver, "xc6slx45", pads, "rgb", e), 8)
    sim = ctx.build(gw.Sim, host)
    src = {"pix": "pll2_pix", "pix2x": "pll1_pix2x", "pix10x": "pll0_pix10x"}
    tree = clocktree.Tree(sim, {n: getattr(e, n) for n in src.values()}, ())
    ctx.count("s6 external")
    for d, n in src.items():
        r, f, p, ch = tree.domain(d)
        ctx.count("clock domains")
        ctx.expect((r, f, p) == (n, 1, 1), "{}: clock {} is {} times {}, must be {} of the other output".format(job["name"], d, f, r, n))
        ctx.state("s6ext", d)
    for x in [i for i in sim.instances if i.of == "BUFPLL"]:
        ctx.expect(tree.pr.follows(e.pll_locked, x.inputs["LOCKED"]) == 1, "{}: BUFPLL does not get the lock of the other output".format(job["name"]))
        ctx.expect(tree.pr.domains(x.inputs["GCLK"]).get("pix2x") == 1 and x.params.get("DIVIDE") == 5, "{}: BUFPLL GCLK/DIVIDE".format(job["name"]))
        for i in sim.instances:
            if "IOCE" in i.inputs:
                ctx.expect(tree.pr.follows(x.outputs["SERDESSTROBE"], i.inputs["IOCE"]) == 1, "{}: {} does not get the strobe".format(job["name"], i.of))
    ctx.ev(10)


def run(job, ctx):
    rng = npr(job)
    if job["kind"] == "s6ext":
        return external(job, ctx, rng)
    name, kind = job["name"], job["kind"]
    pads, dut, host, sim, ext = make(job, ctx, rng)
    ctx.count({"s6in": "s6 in", "s7in": "s7 in", "s7split": "s7 in split", "s6out": "s6 out", "s7out": "s7 out"}[kind])
    rxin = "out" not in kind
    tree = clocktree.Tree(sim, {"clk_p": pads.clk_p} if rxin else {}, ext)
    # --- ratios
    root, base, pol, ch = tree.domain("pix")
    inv = rxin and hasattr(pads.clk_p, "inverted") and kind != "s6in"
    if inv:
        ctx.count("inverted clock pad")
    if rxin:
        ctx.expect(root == "clk_p", "{}: the pixel clock comes from {}".format(name, root))
        ctx.expect(base == 1, "{}: the pixel clock is {} times the clock of the link".format(name, base))
        ctx.expect((pol < 0) == inv, "{}: the pixel clock has the wrong polarity".format(name))
    else:
        ctx.expect(root == ext[0], "{}: the pixel clock comes from {}".format(name, root))
        # 25 MHz from 50 MHz, or 150 MHz from 100 MHz
        want = Fraction(1, 2) if kind == "s6out" else Fraction(3, 2)
        ctx.expect(base == want, "{}: the pixel clock starts at {} times the {} clock instead of {}".format(name, base, ext[0], want))
    ctx.state(kind, "pix", base)
    pll = tree.pll_of("pix")
    for d, r in RATIOS[kind].items():
        rt, f, p, c = tree.domain(d)
        ctx.count("clock domains")
        if rt != root or f != base*r or p != pol:
            ctx.fail("{}: clock {} is {} times {}{}, must be {} times the pixel clock ({} times {})".format(name, d, f, rt, " inverted" if p != pol else "", r, base, root))
            return
        if kind != "s7split" or not d.endswith("_o"):
            ctx.expect(tree.pll_of(d) is pll, "{}: clock {} comes from another PLL than the pixel clock".format(name, d))
        ctx.state(kind, d, f)
    # --- clocks of the serial primitives
    for i in sim.instances:
        if i.of in ("OSERDESE2", "OSERDES2", "ISERDESE2", "ISERDES2"):
            want = {"OSERDESE2": dict(CLK="pix5x", CLKDIV="pix"), "OSERDES2": dict(CLK0="pix10x", CLKDIV="pix2x"),
                    "ISERDESE2": dict(CLK="pix5x", CLKDIV="pix1p25x"), "ISERDES2": dict(CLK0="pix10x", CLKDIV="pix2x")}[i.of]
            for p, d in want.items():
                ctx.expect(tree.pr.domains(i.inputs[p]).get(d) == 1, "{}: {} of {} is not clock {}".format(name, p, i.of, d))
                ctx.count("serializer clocks")
    bp = [i for i in sim.instances if i.of == "BUFPLL"]
    for x in bp:
        ctx.expect(tree.pr.domains(x.inputs["GCLK"]).get("pix2x") == 1 and x.params.get("DIVIDE") == 5, "{}: BUFPLL GCLK/DIVIDE".format(name))
        for i in sim.instances:
            for p in ("IOCE",):
                if p in i.inputs:
                    ctx.expect(tree.pr.follows(x.outputs["SERDESSTROBE"], i.inputs[p]) == 1, "{}: {} does not get the strobe".format(name, i.of))
    # --- lock and reset
    R = None
    plls = [i for i in sim.instances if i.of in clocktree.PLLS]
    locksrc = {}              # domain -> lock output that holds it in reset
    if kind in ("s7in", "s7split"):
        locksrc = {"pix": pll, "pix1p25x": pll, "pix_o": tree.pll_of("pix_o")}
    elif kind == "s6in":
        locksrc = {"pix": bp[0], "pix2x": bp[0]}
    elif kind == "s7out":
        locksrc = {"pix": pll}
    out = lambda i: i.outputs["LOCKED" if "LOCKED" in i.outputs else "LOCK"]
    cds = tree.cds
    for d in locksrc:
        if cds[d].rst is None:
            ctx.fail("{}: clock domain {} has no reset".format(name, d))
            return
    per = {"sys": float(rng.uniform(3, 30)), "pix": 10.}
    for d, r in RATIOS[kind].items():
        if sim.mask(d) and d not in per and d in ("pix_o", "pix1p25x", "pix2x"):
            per[d] = 10./float(r)
    rstpins = [i.inputs["RST"] for i in plls]
    doms = list(locksrc)
    b = bench.Bench(sim, per, rng, [cds[d].rst for d in doms] + rstpins, host, jitter=.1, metastab=.5)
    R = Regs(b, host)
    lockreg = {"s6in": "locked", "s7in": "locked", "s7split": "locked"}.get(kind)
    rstreg = "pll_reset" if kind.startswith("s6") else "mmcm_reset"
    dcm = [i for i in sim.instances if i.of == "DCM_CLKGEN"]
    # software holds the receiver's PLL in reset at first, the transmitter's runs
    rst = 1 if rxin else 0
    srcs = list({id(i): i for i in list(locksrc.values()) + plls + bp + dcm}.values())
    state = {id(i): 0 for i in srcs}
    for i in srcs:
        sim[out(i)] = 0
    sim.settle()
    b.steps(20)

    def pins(what):
        for i, s in zip(plls, rstpins):
            e = rst
            if dcm:
                e = rst | (1 - state[id(dcm[0])])
            if sim[s] != e:
                ctx.fail("{}: {}: reset of {} is {}, must be {}".format(name, what, i.of, sim[s], e))
                return False
        return True
    if not pins("after power up"):
        return
    for ev in range(60):
        a = rng.random()
        if a < .25:
            rst = int(rng.integers(0, 2))
            R.w(rstreg, rst)
            ctx.count("reset writes")
            b.steps(2)
            if not pins("{} = {}".format(rstreg, rst)):
                return
        else:
            i = srcs[int(rng.integers(0, len(srcs)))]
            v = 1 - state[id(i)]
            # S6: BUFPLL locks after the PLL; independent here
            state[id(i)] = v
            sim[out(i)] = v
            sim.settle()
            ctx.count("lock gained" if v else "lock lost")
            ctx.state(kind, ev % 8, i.of, v)
            if not pins("lock of {} changes".format(i.of)):
                return
        # asynchronous assertion: no clock needed
        for d in doms:
            if not state[id(locksrc[d])] and sim[cds[d].rst] != 1:
                ctx.fail("{}: domain {} is out of reset without lock".format(name, d))
                return
        if rng.random() < .3:
            b.steps(int(rng.integers(1, 4)))
        else:
            # within a few cycles of its clock, the reset ends
            b.collect()
            hold = {d: not state[id(locksrc[d])] for d in doms}
            for d in doms:
                b.ticks(6, d if sim.mask(d) and d in b.bits else "pix")
            b.ticks(6)
            for d in doms:
                if sim[cds[d].rst] != int(hold[d]):
                    ctx.fail("{}: reset of domain {} is {}, lock is {}".format(name, d, sim[cds[d].rst], state[id(locksrc[d])]))
                    return
            arr = b.collect()
            for k, d in enumerate(doms):
                if hold[d] and not arr[:, k].all():
                    ctx.fail("{}: reset of domain {} ends without lock".format(name, d))
                    return
                if not hold[d] and len(arr) and (np.diff(arr[:, k]) > 0).any():
                    ctx.fail("{}: reset of domain {} comes back without loss of lock".format(name, d))
                    return
            if lockreg:
                src = bp[0] if kind == "s6in" else pll
                v = R.r(lockreg)
                ctx.count("locked read {}".format(v))
                if v != state[id(src)]:
                    ctx.fail("{}: locked reads {}, lock is {}".format(name, v, state[id(src)]))
                    return
        ctx.ev(sum(len(x) for x in b.logs) or 20)
    ctx.ev(sum(b.nticks.values()))
    ctx.sample("{}: {}".format(name, {d: str(tree.domain(d)[1]) for d in ["pix"] + list(RATIOS[kind])}))
    ctx.sanitizers(sim)
