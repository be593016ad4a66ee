"""the vendor primitives of the video input, as their data sheets describe them"""
import numpy as np
from migen import *
import gw, bench
from fw import Bug
from phy import locked


class Pads:
    pass


def in_pads(inverted=(), edid=False, rng=None):
    """rng: the DDC and hot plug pads of any board: each may be missing, inverted, or split in two drivers"""
    p = Pads()
    for n in ("clk", "data0", "data1", "data2"):
        for s in "_p", "_n":
            sig = Signal(name="pad_" + n + s)
            if n in inverted:
                sig.inverted = True
            setattr(p, n + s, sig)
    if edid:
        p.scl, p.sda = Signal(name="pad_scl"), Signal(name="pad_sda")
        b = (lambda x: True) if rng is None else lambda x: rng.random() < x
        if b(.6):
            p.hpd_en = Signal(name="pad_hpd_en")
        if b(.6):
            p.hpd_notif = Signal(name="pad_hpd_notif")
            if rng is not None and b(.4):
                p.hpd_notif.inverted = True
        if rng is not None:
            if b(.3):
                p.scl.inverted = True
            if b(.4):
                p.sda_pu, p.sda_pd = Signal(name="pad_sda_pu"), Signal(name="pad_sda_pd")
                if b(.5):
                    p.sda.inverted = True
    return p


class Probe:
    """what follows what, by driving it"""
    def __init__(self, sim):
        self.sim = sim

    def follows(self, drv, mon):
        """1: mon follows drv, -1: inverted, 0: neither"""
        s = self.sim
        old = s[drv]
        s[drv] = 0
        s.settle()
        a = s[mon]
        s[drv] = 1
        s.settle()
        b = s[mon]
        s[drv] = old
        s.settle()
        return (a == 0 and b == 1) - (a == 1 and b == 0)

    def domains(self, mon):
        """clock domains that the clock input mon belongs to (name -> polarity)"""
        r = {}
        for cd in self.sim.lo.frag.clock_domains:
            try:
                f = self.follows(cd.clk, mon)
            except Exception:
                continue
            if f:
                r[cd.name] = f
        return r


class Lane:
    """one receive lane: buffer -> delay lines -> deserializers"""
    def __init__(self, sim, pad_p, pad_n, what, s6):
        self.sim, self.what, self.s6 = sim, what, s6
        pr = Probe(sim)
        S = sim.instances
        buf = [i for i in S if i.of.startswith("IBUFDS") and "I" in i.inputs and pr.follows(pad_p, i.inputs["I"]) == 1 and pr.follows(pad_n, i.inputs["IB"]) == 1]
        self.need(len(buf) == 1, "{} input buffers between its pads".format(len(buf)))
        buf = buf[0]
        self.des = []           # (serdes, delay, polarity)
        dl, sd, din = ("IODELAY2", "ISERDES2", "D") if s6 else ("IDELAYE2", "ISERDESE2", "DDLY")
        for d in S:
            if d.of != dl:
                continue
            for port, pol in (("O", 1), ("OB", -1)):
                if port in buf.outputs:
                    f = pr.follows(buf.outputs[port], d.inputs["IDATAIN"])
                    if f:
                        self.des += [(q, d, f*pol) for q in S if q.of == sd and din in q.inputs and pr.follows(d.outputs["DATAOUT"], q.inputs[din]) == 1]
        self.need(len(self.des) == 2, "{} deserializers behind its buffer".format(len(self.des)))
        if s6:
            m = [x for x in self.des if x[0].params.get("SERDES_MODE") == "MASTER"]
            s = [x for x in self.des if x[0].params.get("SERDES_MODE") == "SLAVE"]
            self.need(len(m) == 1 and len(s) == 1, "deserializer modes")
            self.m, self.s = m[0], s[0]
            for q, d, pol in self.des:
                p = q.params
                self.need(p.get("DATA_WIDTH") == 5 and p.get("DATA_RATE") == "SDR" and p.get("BITSLIP_ENABLE") == "FALSE", "deserializer configuration {}".format(p))
                self.need(d.params.get("SERDES_MODE") == q.params.get("SERDES_MODE"), "delay line mode")
            self.need(pr.follows(self.m[0].outputs["SHIFTOUT"], self.s[0].inputs["SHIFTIN"]) == 1 and
                      pr.follows(self.s[0].outputs["SHIFTOUT"], self.m[0].inputs["SHIFTIN"]) == 1, "cascade")
            fast, slow = "pix10x", "pix2x"
            clks = [("CLK0", fast, 1), ("CLKDIV", slow, 1)]
            # UG381: the slave holds the older bits; Q4 is the most recent one of each
            order = [(self.s[0], "Q4", self.s[2])] + [(self.m[0], "Q{}".format(k), self.m[2]) for k in (1, 2, 3, 4)]
            self.cols = [(order, 0)]
            self.n = 5
        else:
            m = [x for x in self.des if x[2] > 0]
            s = [x for x in self.des if x[2] < 0]
            self.need(len(m) == 1 and len(s) == 1, "deserializer polarities")
            self.m, self.s = m[0], s[0]
            for q, d, pol in self.des:
                p = q.params
                self.need(p.get("DATA_WIDTH") == 8 and p.get("DATA_RATE") == "DDR" and p.get("SERDES_MODE") == "MASTER" and
                          p.get("INTERFACE_TYPE") == "NETWORKING" and p.get("IOBDELAY") in ("IFD", "BOTH"), "deserializer configuration {}".format(p))
                self.need(sim[q.inputs["CE1"]] == 1 and sim[q.inputs["BITSLIP"]] == 0, "deserializer controls")
            clks = [("CLK", "pix5x", 1), ("CLKB", "pix5x", -1), ("CLKDIV", "pix1p25x", 1)]
            # UG471: Q8 is the first bit received
            self.cols = [([(x[0], "Q{}".format(k), x[2]) for k in range(8, 0, -1)], i) for i, x in enumerate((self.m, self.s))]
            self.n = 8
        self.slow = "pix2x" if s6 else "pix1p25x"
        for q, d, pol in self.des:
            for port, dom, p in clks:
                self.need(pr.domains(q.inputs[port]).get(dom) == p, "clock {} of a deserializer is not {}".format(port, dom))
            cp = "CLK" if s6 else "C"
            self.need(pr.domains(d.inputs[cp]).get(self.slow) == 1, "clock of a delay line is not {}".format(self.slow))
        self.inv = bool(hasattr(pad_p, "inverted"))

    def need(self, cond, what):
        if not cond:
            raise Bug("lane {}: {}".format(self.what, what))

    def signals(self):
        return [q.outputs[p] for order, i in self.cols for q, p, pol in order]

    def rows(self, bits, slave_bits=None):
        """bits on the link (1 per bit time, logical, i.e. as the transmitter meant them) -> rows for signals()"""
        n = len(bits)//self.n*self.n
        x = np.asarray(bits[:n]).reshape(-1, self.n) ^ int(self.inv)
        y = x if slave_bits is None else np.asarray(slave_bits[:n]).reshape(-1, self.n) ^ int(self.inv)
        out = []
        for order, i in self.cols:
            src = y if i else x
            for k, (q, p, pol) in enumerate(order):
                out.append(src[:, k] ^ int(pol < 0))
        return np.stack(out, 1)


class RxBench(bench.Bench):
    """pix, pix_o and the deserializer clock are phase aligned"""
    def __init__(self, sim, s6, rng, trace, host, sysper=None, metastab=0., retimed=False):
        per = {"pix": 10., ("pix2x" if s6 else "pix1p25x"): 5. if s6 else 8.}
        if sysper:
            per["sys"] = sysper
        if retimed and sim.mask("pix_o") != sim.mask("pix"):
            # the clock of a second generator, same frequency and phase: no races between the two
            per["pix_o"] = 10.
            metastab = 0.
        bench.Bench.__init__(self, sim, per, rng, trace, host, metastab=metastab)
        ph = float(rng.integers(1, 50))
        for k in self.sched.next:
            if k != "sys":
                self.sched.next[k] = ph


def bits_of(words, n):
    """n bits per word, least significant first"""
    return ((np.asarray(words)[:, None] >> np.arange(n)) & 1).ravel()
