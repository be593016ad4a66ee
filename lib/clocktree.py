"""clock generation: what drives what, at which frequency; and PLL/DCM models for their configuration ports"""
import numpy as np
from fractions import Fraction
from migen import *
from migen.fhdl.structure import ClockSignal, _Assign
import gw, bench
from fw import Bug
from rxphy import Probe

PLLS = ("MMCME2_ADV", "PLLE2_ADV", "PLL_ADV", "MMCME2_BASE", "PLLE2_BASE", "PLL_BASE")
BUFS = {"BUFG": "I", "BUFR": "I", "BUFH": "I", "BUFIO": "I", "BUFIO2": "I", "BUFMR": "I", "IBUFG": "I", "IBUFGDS": "I", "IBUFDS": "I", "IBUFDS_DIFF_OUT": "I"}


def frac(x, d=1):
    return Fraction(str(x)) if x is not None else Fraction(d)


class Tree:
    """roots: dict name -> Signal (pads, and domains that come from outside as ClockDomain names)"""
    def __init__(self, sim, pads, domains=()):
        self.sim, self.pads, self.roots = sim, pads, set(domains)
        self.pr = Probe(sim)
        self.cds = {cd.name: cd for cd in sim.lo.frag.clock_domains}

    def domain(self, name):
        """-> (root, ratio, polarity, chain)"""
        if name in self.roots:
            return name, Fraction(1), 1, [name]
        cd = self.cds.get(name)
        if cd is None:
            raise Bug("clock domain {} does not exist".format(name))
        for i in self.sim.instances:
            for p, e in i.out_exprs.items():
                if e is cd.clk or isinstance(e, ClockSignal) and e.cd == name:
                    return self.output(i, p)
        a = self.sim.alias.get(name)
        if a is not None and a != name:
            return self.domain(a)
        raise Bug("nothing drives clock {}".format(name))

    def output(self, i, p):
        of = i.of
        if of in BUFS:
            r, f, pol, ch = self.input(i, BUFS[of])
            d = i.params.get("BUFR_DIVIDE", i.params.get("DIVIDE", 1))
            if d not in (1, "1", "BYPASS"):
                f = f/Fraction(str(d))
            return r, f, pol*(-1 if p == "OB" else 1), ch + [of]
        if of == "BUFPLL" and p == "IOCLK":
            r, f, pol, ch = self.input(i, "PLLIN")
            return r, f, pol, ch + [of]
        if of == "DCM_CLKGEN" and p == "CLKFX":
            r, f, pol, ch = self.input(i, "CLKIN")
            return r, f*frac(i.params.get("CLKFX_MULTIPLY"), 4)/frac(i.params.get("CLKFX_DIVIDE"), 1), pol, ch + [of]
        if of in PLLS and p.startswith("CLKOUT"):
            r, f, pol, ch = self.input(i, "CLKIN1" if "CLKIN1" in i.inputs else "CLKIN")
            q = i.params
            if "CLKINSEL" in i.inputs and self.sim[i.inputs["CLKINSEL"]] != 1:
                raise Bug("{} does not select CLKIN1".format(of))
            m = frac(q.get("CLKFBOUT_MULT_F", q.get("CLKFBOUT_MULT")))/frac(q.get("DIVCLK_DIVIDE"))
            d = frac(q.get(p + "_DIVIDE_F", q.get(p + "_DIVIDE")))
            for s in (p + "_PHASE", "CLKFBOUT_PHASE"):
                if float(q.get(s, 0)):
                    raise Bug("{} {} is shifted by {} degrees".format(of, p, q[s]))
            # the loop must be closed through the feedback output
            fr, ff, fp, fch = self.feedback(i)
            if fp != 1:
                raise Bug("{}: feedback inverted".format(of))
            return r, f*m/d, pol, ch + [of]
        raise Bug("clock from {}.{}".format(of, p))

    def feedback(self, i):
        s = self.driver(i.inputs["CLKFBIN"], "CLKFBIN of " + i.of)
        pol = s[2]
        while True:
            if s[0] is i and s[1] == "CLKFBOUT":
                return None, 1, pol, []
            if s[0] is None or s[0].of not in BUFS:
                raise Bug("{}: feedback comes from {}".format(i.of, s[0] and s[0].of))
            s = self.driver(s[0].inputs[BUFS[s[0].of]], s[0].of)
            pol *= s[2]

    def driver(self, probe, what):
        """-> (instance or None, port or root name, polarity)"""
        sim = self.sim
        c = []
        for i in sim.instances:
            for p, s in i.outputs.items():
                e = i.out_exprs[p]
                if any(e is cd.clk for cd in self.cds.values()) or len(s) != 1:
                    continue
                f = self.pr.follows(s, probe)
                if f:
                    c.append((i, p, f))
        for n, s in self.pads.items():
            f = self.pr.follows(s, probe)
            if f:
                c.append((None, n, f))
        seen = set()
        for n, cd in self.cds.items():
            if id(cd.clk) in seen:
                continue
            seen.add(id(cd.clk))
            try:
                f = self.pr.follows(cd.clk, probe)
            except Exception:
                f = 0
            if f:
                c.append((None, "domain:" + n, f))
        if len(c) < 1:
            raise Bug("{} is driven by nothing".format(what))
        return c[0]

    def input(self, i, port):
        if port not in i.inputs:
            raise Bug("{} has no {}".format(i.of, port))
        s, p, pol = self.driver(i.inputs[port], i.of + "." + port)
        if s is None:
            if p.startswith("domain:"):
                r, f, q, ch = self.domain(p[7:])
                return r, f, q*pol, ch
            return p, Fraction(1), pol, [p]
        r, f, q, ch = self.output(s, p)
        return r, f, q*pol, ch

    def pll_of(self, name):
        """the PLL that the clock of a domain comes from"""
        cd = self.cds[name]
        i = None
        for x in self.sim.instances:
            for p, e in x.out_exprs.items():
                if e is cd.clk or isinstance(e, ClockSignal) and e.cd == name:
                    i, port = x, p
        if i is None:
            a = self.sim.alias.get(name)
            return self.pll_of(a) if a and a != name else None
        while i is not None and i.of not in PLLS:
            i, _, _ = self.driver(i.inputs[BUFS.get(i.of, "PLLIN")], i.of)
        return i


class DRP:
    """configuration port of a PLL (XAPP888/879): an access is a cycle with DEN high; DRDY pulses once when it is done, DO is defined from then on to the next access"""
    def __init__(self, sim, inst, rng):
        self.sim, self.i, self.rng = sim, inst, rng
        self.regs = {}
        self.log = []          # (we, adr, di)
        self.left = None
        self.pend = None
        self.done = 0
        self.clash = 0
        self.trace = [inst.inputs[k] for k in ("DEN", "DWE", "DADDR", "DI")]
        self.sim[inst.outputs["DRDY"]] = 0

    def edge(self, row):
        den, dwe, adr, di = (int(x) for x in row)
        o = self.i.outputs
        self.sim[o["DRDY"]] = 0
        if den:
            self.log.append((dwe, adr, di if dwe else None))
            if self.left is not None:
                self.clash += 1
            self.left = int(self.rng.choice([1, 2, 3, 8, 24, 60]))
            self.pend = (dwe, adr, di)
            self.sim[o["DO"]] = int(self.rng.integers(0, 1 << 16))
        elif self.left is not None:
            self.left -= 1
            if self.left == 0:
                self.left = None
                we, adr, di = self.pend
                if we:
                    self.regs[adr] = di
                    self.sim[o["DO"]] = int(self.rng.integers(0, 1 << 16))
                else:
                    self.sim[o["DO"]] = self.regs.setdefault(adr, int(self.rng.integers(0, 1 << 16)))
                self.sim[o["DRDY"]] = 1
                self.done += 1

    def busy(self):
        return self.left is not None


class DCMPort:
    """serial programming port of DCM_CLKGEN (UG382): runs of PROGEN; a run of 10 loads M or D, a run of 1 is GO; runs are separated by idle cycles"""
    def __init__(self, sim, inst, rng):
        self.sim, self.i, self.rng = sim, inst, rng
        self.run = []
        self.log = []
        self.idle = 99
        self.gap = []
        self.stray = 0
        self.wait = None
        self.trace = [inst.inputs[k] for k in ("PROGEN", "PROGDATA")]
        self.md = {}
        sim[inst.outputs["PROGDONE"]] = 1
        self.progdone = 1

    def edge(self, row):
        en, d = int(row[0]), int(row[1])
        if en:
            if not self.run:
                self.gap.append(self.idle)
            self.run.append(d)
            self.idle = 0
        else:
            self.stray += d
            if self.run:
                self.log.append(tuple(self.run))
                if len(self.run) == 1:
                    self.wait = int(self.rng.integers(3, 60))
                    self.progdone = 0
                self.run = []
            self.idle += 1
            if self.wait is not None:
                self.wait -= 1
                if self.wait == 0:
                    self.wait = None
                    self.progdone = 1
        self.sim[self.i.outputs["PROGDONE"]] = self.progdone


class Reactive(bench.Bench):
    """bench that runs models on every edge of sys"""
    def __init__(self, sim, periods, rng, host, models, jitter=0., metastab=0.):
        self.models = models
        bench.Bench.__init__(self, sim, periods, rng, [s for m in models for s in m.trace], host, jitter=jitter, metastab=metastab)
        self.log = False
        self.n = 0

    def steps(self, n):
        for k in range(n):
            self.log = True
            bench.Bench.steps(self, 1)
            if int(self.masks[0][0]) & self.bits["sys"]:
                row = self.logs[0][0]
                c = 0
                for m in self.models:
                    m.edge(row[c:c + len(m.trace)])
                    c += len(m.trace)
                self.sim.settle()
                self.n += 1
            self.logs, self.masks = [], []

    def ticks(self, n, dom="sys"):
        k = self.nticks[dom] + n
        while self.nticks[dom] < k:
            self.steps(1)
