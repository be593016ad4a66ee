"""every combination of options gives a complete design with a consistent register map"""
import itertools, re
import numpy as np
from migen import *
from migen.fhdl import verilog as mverilog
from litex.soc.interconnect.csr import CSRStorage, CSRStatus, CSRConstant, AutoCSR
from litex.soc.interconnect import stream
from litex.build.xilinx import common as vendor
from litedram.common import LiteDRAMNativePort
import gw, bench, phy, rxphy
from streams import *

RULE = ("designs of one to four cores with random combinations of constructor options (family, mode, pads and their polarity, port widths, FIFO depths, slots, split or shared clocking, "
        "genlock, widths, init data): each must elaborate and convert to Verilog with only the documented outer clock domains, no signal driven twice, no unsettled loop, register names "
        "unique; in the running design every register must read back what was written last, whatever is written to the others and whatever happens at the pads; a case is a distinct configuration or register write")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "outer clock domains: sys, clk100 (Series 7 output), base50 (Spartan-6 output), the domain of the memory port"]
MIN_EVENTS = 5000
MUST_OBSERVE = ("designs", "verilog lines", "registers written", "read-backs", "several cores in one design", "HDMIIn", "VideoOut", "VideoOutCore", "Driver", "Terminal", "csc", "pattern", "shared clocking",
                "genlock", "two instances of one core")


def jobs(tier, seed):
    n = 12 if tier == "quick" else 120
    return [dict(name="{}-{}".format(k, i), kind=k, seed=seed + 31*i) for i in range(n) for k in ("in", "out", "core", "mix", "mix", "small", "shared")] + \
        [dict(name="{}-{}".format(k, i), kind=k, seed=seed + 31*i) for i in range(n, 3*n) for k in ("in", "out", "core", "small")]


def inverted(rng, names):
    return [x for x in names if rng.random() < .3]


def pick(rng, *l):
    return l[int(rng.integers(len(l)))]


class Maker:
    """cores with random options; every one has a name"""
    def __init__(self, ctx, rng, several):
        self.ctx, self.rng, self.several = ctx, rng, several
        self.names, self.ports, self.text = [], [], []
        self.last = None
        self.family(pick(rng, "xc6", "xc7"))

    def family(self, fam):
        self.fam = fam
        self.overrides = dict(vendor.xilinx_special_overrides)
        self.overrides.update(vendor.xilinx_s6_special_overrides if self.fam == "xc6" else vendor.xilinx_s7_special_overrides)

    def name(self, base):
        n = base + str(len(self.names))
        self.names.append(n)
        return n

    def dom(self, n):
        # two cores with a domain of the same name: each gets its own, prefixed with the name of the core
        return n + "_pix" if self.several else "pix"

    def hdmi_in(self):
        from litevideo.input import HDMIIn
        rng = self.rng
        n = self.name("hdmi_in")
        mode = pick(rng, "rgb", "ycbcr422")
        dw = int(pick(rng, 32, 64, 128, 256)) if mode == "ycbcr422" else int(pick(rng, 64, 128, 256))
        o = dict(device=self.fam, mode=mode, hdmi=bool(rng.integers(0, 2)), split_mmcm=self.fam == "xc7" and bool(rng.integers(0, 2)),
                 n_dma_slots=int(rng.integers(1, 7)), fifo_depth=int(pick(rng, 16, 64, 512, 1024)), clkin_freq=float(pick(rng, 148.5e6, 74.25e6)))
        pads = rxphy.in_pads(inverted(rng, ("clk", "data0", "data1", "data2")), rng.random() < .7, rng)
        port = None
        if rng.random() < .85:
            port = LiteDRAMNativePort("write", int(rng.integers(10, 31)), dw)
            self.ports.append(port)
        else:
            o.pop("n_dma_slots"), o.pop("fifo_depth")
        if rng.random() < .4:
            o["default_edid"] = [int(x) for x in rng.integers(0, 256, 128*int(rng.integers(1, 3)))]
        if rng.random() < .2:
            for k in ("mode", "hdmi", "split_mmcm", "clkin_freq"):
                if port is None or k != "mode":
                    o.pop(k)
        ddc = [x + ("~" if hasattr(getattr(pads, x), "inverted") else "") for x in ("scl", "sda", "sda_pu", "sda_pd", "hpd_en", "hpd_notif") if hasattr(pads, x)]
        self.text.append("HDMIIn({}, port={}, ddc={})".format({k: v for k, v in o.items() if k != "default_edid"}, port and (port.aw, port.dw), ddc))
        self.ctx.count("HDMIIn")
        return n, self.ctx.build(HDMIIn, pads, port, **o)

    def video_out(self):
        from litevideo.output import VideoOut
        rng = self.rng
        n = self.name("hdmi_out")
        mode = pick(rng, "rgb", "ycbcr422", "raw")
        dev = pick(rng, "xc7a35t", "xc7z020") if self.fam == "xc7" else "xc6slx45"
        vga = mode != "raw" and rng.random() < .3
        s6 = dev[:3] == "xc6"
        pads = phy.vga_pads([int(x) for x in rng.integers(1, 9, 3)]) if vga else phy.hdmi_pads(inverted(rng, ("data0", "data1", "data2", "clk")), clk_diff=s6 or rng.random() < .8)
        o = dict(mode=mode, fifo_depth=int(pick(rng, 16, 64, 512)))
        if s6 and self.last is not None and rng.random() < .7:
            o["external_clocking"] = self.last
            self.ctx.count("shared clocking")
        port = LiteDRAMNativePort("read", int(rng.integers(10, 31)), 16 if mode == "ycbcr422" else 32, self.dom(n))
        self.ports.append(port)
        self.text.append("VideoOut({}, {}, port={})".format(dev, {k: v for k, v in o.items() if k != "external_clocking"}, (port.aw, port.dw)))
        self.ctx.count("VideoOut")
        d = self.ctx.build(VideoOut, dev, pads, port, **o)
        if s6 and "external_clocking" not in o:
            self.last = d.driver.clocking
        return n, d

    def core(self):
        from litevideo.output.core import VideoOutCore
        from litevideo.output.common import frame_timing_layout
        rng = self.rng
        n = self.name("core")
        mode = pick(rng, "rgb", "ycbcr422", "raw")
        dom = pick(rng, "sys", "dom_a", "dom_b")
        port = LiteDRAMNativePort("read", int(rng.integers(10, 31)), 16 if mode == "ycbcr422" else 32, dom)
        self.ports.append(port)
        gl = rng.random() < .3
        if gl:
            self.ctx.count("genlock")
        self.text.append("VideoOutCore({}, {}, genlock={})".format(mode, dom, gl))
        self.ctx.count("VideoOutCore")
        return n, self.ctx.build(VideoOutCore, port, mode, int(pick(rng, 16, 64, 512)), stream.Endpoint(frame_timing_layout) if gl else None)

    def driver(self):
        from litevideo.output.driver import Driver
        rng = self.rng
        mode = pick(rng, "rgb", "ycbcr422", "raw")
        dev = "xc7a35t" if self.fam == "xc7" else "xc6slx9"
        vga = mode != "raw" and rng.random() < .3
        pads = phy.vga_pads(int(rng.integers(1, 9))) if vga else phy.hdmi_pads(inverted(rng, ("data0", "data1", "data2", "clk")), clk_diff=dev[:3] == "xc6" or rng.random() < .8)
        self.text.append("Driver({}, {}, vga={})".format(dev, mode, vga))
        self.ctx.count("Driver")
        return self.name("driver"), self.ctx.build(Driver, dev, pads, mode)

    def terminal(self):
        from litevideo.terminal.core import Terminal
        self.text.append("Terminal")
        self.ctx.count("Terminal")
        cd = ClockDomainsRenamer({"vga": "dom_a"})
        return self.name("terminal"), cd(self.ctx.build(Terminal))

    def csc(self):
        from litevideo.csc.rgb2ycbcr import RGB2YCbCr
        from litevideo.csc.ycbcr2rgb import YCbCr2RGB
        from litevideo.csc.ycbcr422to444 import YCbCr422to444
        from litevideo.csc.ycbcr444to422 import YCbCr444to422
        from litevideo.csc.rgb2rgb16f import RGB2RGB16f
        from litevideo.csc.rgb16f2rgb import RGB16f2RGB
        from litevideo.float_arithmetic.floatadd import FloatAdd
        from litevideo.float_arithmetic.floatmult import FloatMult
        rng = self.rng
        w, c = int(rng.integers(6, 13)), int(rng.integers(6, 13))
        f, a = pick(rng, (RGB2YCbCr, (w, w, c)), (YCbCr2RGB, (w, w, c)), (YCbCr422to444, (w,)), (YCbCr444to422, (w,)), (RGB2RGB16f, ()), (RGB16f2RGB, ()), (FloatAdd, ()), (FloatMult, ()),
                    (RGB2YCbCr, ()), (YCbCr2RGB, ()), (YCbCr422to444, ()), (YCbCr444to422, ()))
        self.text.append("{}{}".format(f.__name__, a))
        self.ctx.count("csc")
        d = self.ctx.build(f, *a)
        return self.name("csc"), d if rng.random() < .5 else ClockDomainsRenamer("dom_b")(d)

    def pattern(self):
        from litevideo.output import pattern
        c = pick(self.rng, pattern.ColorBarsPattern, pattern.VerticalLinesPattern, *[getattr(pattern, x) for x in dir(pattern) if x.endswith("Pattern")])
        self.text.append(c.__name__)
        self.ctx.count("pattern")
        return self.name("pattern"), self.ctx.build(c)


class Top(Module):
    def __init__(self, cores, doms):
        for d in doms:
            setattr(self.clock_domains, "cd_" + d, ClockDomain(d))
        for n, d in cores:
            setattr(self.submodules, n, d)
        self.cores = cores

    def get_csrs(self):
        r = []
        for n, d in self.cores:
            if hasattr(d, "get_csrs"):
                for c in d.get_csrs():
                    if not c.name.startswith(n + "_"):
                        c.name = n + "_" + c.name
                    r.append(c)
        return r


def make(job, ctx, rng):
    kinds = {"in": ("hdmi_in",), "out": ("video_out",), "core": ("core",), "small": ("driver", "csc", "pattern", "terminal", "csc")}
    if job["kind"] == "mix":
        l = [str(pick(rng, "hdmi_in", "hdmi_in", "video_out", "video_out", "core", "csc", "terminal", "pattern", "driver")) for _ in range(int(rng.integers(2, 5)))]
    elif job["kind"] == "shared":
        l = ["video_out", "video_out", "video_out"][:int(rng.integers(2, 4))] + ["hdmi_in"][:int(rng.integers(0, 2))]
    else:
        l = [pick(rng, *kinds[job["kind"]])]
    several = sum(x in ("hdmi_in", "video_out", "driver") for x in l) > 1
    if len(l) > 1:
        ctx.count("several cores in one design")
        if len(set(l)) < len(l):
            ctx.count("two instances of one core")
    m = Maker(ctx, rng, several)
    if job["kind"] == "shared":
        m.family("xc6")
    cores = [getattr(m, x)() for x in l]
    return Top(cores, ("sys", "clk100" if m.fam == "xc7" else "base50", "dom_a", "dom_b")), m


def run(job, ctx):
    seed = int(npr(job).integers(1 << 40))
    # Verilog
    top, m = make(job, ctx, np.random.default_rng(seed))
    what = "{}: {}".format(job["name"], "; ".join(m.text))
    top.get_csrs()
    v = ctx.build(lambda: str(mverilog.convert(top, create_clock_domains=False, special_overrides=m.overrides)))
    ctx.count("designs")
    ctx.count("verilog lines", v.count("\n"))
    ctx.ev(v.count("\n"))
    ctx.state(what)
    # the running design
    rng = np.random.default_rng(seed)
    top, m = make(job, ctx, rng)
    host = bench.Host(top, int(pick(rng, 8, 32)))
    sim = ctx.build(gw.Sim, host)
    ctx.expect(not sim.multidriven, lambda: "{}: driven more than once: {}".format(what, [gw._path(t) for t, _ in sim.multidriven][:4]))
    csrs = host.csrs
    names = [c.name for c in csrs]
    dup = sorted(set(n for n in names if names.count(n) > 1))
    ctx.expect(not dup, "{}: two registers called {}".format(what, dup))
    b = bench.Bench(sim, {r: float(rng.uniform(4, 20)) for r in sim.roots}, rng, [], host)
    # anything at the inputs
    free = [x for i in sim.instances for x in i.outputs.values()]
    n = 997
    if free:
        b.drive(free, np.stack([rng.integers(0, 1 << min(len(x), 62), n) for x in free], 1), "sys", cyclic=True)
    st = [c for c in csrs if isinstance(c, CSRStorage) and not hasattr(c, "we")]
    model = {c.name: c.storage.reset.value for c in st}
    for c in st:
        got = b.read(c.name)
        ctx.expect(got == model[c.name], lambda: "{}: register {} starts as {:#x}, its reset value is {:#x}".format(what, c.name, got, model[c.name]))
    for k in range(min(60, 6*len(csrs))):
        c = csrs[int(rng.integers(len(csrs)))]
        x = int(pick(rng, int(rng.integers(0, 1 << 62)) & ((1 << c.size) - 1), (1 << c.size) - 1, 0, 1 << int(rng.integers(0, c.size))))
        if rng.random() < .8 or not st:
            b.write(c.name, x)
            ctx.count("registers written")
            if c.name in model:
                model[c.name] = x
        for c in [st[int(i)] for i in rng.integers(0, max(1, len(st)), 3)] if st else ():
            got = b.read(c.name)
            ctx.ev()
            ctx.count("read-backs")
            if not ctx.expect(got == model[c.name], lambda: "{}: register {} reads {:#x}, {:#x} was written".format(what, c.name, got, model[c.name])):
                return
            ctx.expect(sim[c.storage] == model[c.name], lambda: "{}: register {} holds {:#x}, {:#x} was written".format(what, c.name, sim[c.storage], model[c.name]))
    b.ticks(500)
    ctx.sample(what)
    ctx.sanitizers(sim)
