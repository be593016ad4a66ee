"""the vendor primitives of the video output, as their data sheets describe them, and benches that observe the serial lanes"""
import numpy as np
from migen import *
from litedram.common import LiteDRAMNativePort
import gw, bench, raster, tmds
from fw import Bug


class Pads:
    pass


class InvSignal(Signal):
    """a pad with swapped polarity, the way platforms mark it"""


def hdmi_pads(inverted=(), clk_diff=True):
    p = Pads()
    for n in ["data0", "data1", "data2"] + (["clk"] if clk_diff else []):
        for s in "_p", "_n":
            sig = Signal(name="pad_" + n + s)
            if n in inverted:
                sig.inverted = True
            setattr(p, n + s, sig)
    if not clk_diff:
        p.clk = Signal(name="pad_clk")
    return p


def vga_pads(width=8):
    p = Pads()
    for n in ("hsync_n", "vsync_n", "psave_n", "clk"):
        setattr(p, n, Signal(name="pad_" + n))
    for n, w in zip("rgb", width if isinstance(width, (list, tuple)) else 3*[width]):
        setattr(p, n, Signal(w, name="pad_" + n))
    return p


class PixSchedule(bench.Schedule):
    """"pix2x" has two phase-aligned edges per edge of "pix" """
    def __init__(self, periods, rng, jitter=0., phase=True):
        self.ratio = periods["pix"]
        bench.Schedule.__init__(self, {k: v for k, v in periods.items() if k != "pix"}, rng, jitter, phase)
        self.k = 0

    def take(self, n, bits):
        m = bench.Schedule.take(self, n, bits)
        t = (m & bits["pix2x"]) != 0
        idx = self.k + np.cumsum(t) - t
        self.k += int(t.sum())
        return np.where(t & (idx % 2 == 0), m | bits["pix"], m)


def aligned_bench(sim, periods, rng, trace, host, jitter=0., metastab=0.):
    """Bench whose pix and pix2x domains are aligned, with the pix clock visible to logic that uses it as data"""
    b = bench.Bench(sim, periods, rng, trace, host, jitter=jitter, metastab=metastab)
    per = {k: v for k, v in periods.items() if k in b.bits}
    if "pix2x" in b.bits:
        b.sched = PixSchedule(per, rng, jitter)
        clk = sim.lo.frag.clock_domains["pix"].clk
        # level just before the edge: low before the common edge, high before the one in the middle of the pixel
        b.drive([clk], [[0], [1]], "pix2x", cyclic=True)
    return b


class Lanes:
    """finds the serializers by what they are connected to, by driving their outputs"""
    def __init__(self, sim, pads, names):
        self.sim = sim
        S = sim.instances
        self.kind = None
        bufs = [i for i in S if i.of == "OBUFDS"]
        self.lanes = {}
        self.unknown = []
        for n in names:
            p, m = getattr(pads, n + "_p"), getattr(pads, n + "_n")
            b = self._source(bufs, "O", p)
            if self._source(bufs, "OB", m) is not b:
                raise Bug("{}_p and {}_n come from different buffers".format(n, n))
            drv = [i for i in S if "OQ" in i.outputs or i.of == "ODDR2" or i.of == "OSERDESE2"]
            c = [i for i in drv if self._follows(i, "OQ" if "OQ" in i.outputs else "Q", b, "I")]
            if len(c) != 1:
                raise Bug("lane {}: driven by {} primitives".format(n, len(c)))
            self.lanes[n] = self.primitive(c[0], n)

    def _set(self, inst, port, v):
        if port not in inst.outputs:
            return False
        self.sim[inst.outputs[port]] = v
        self.sim.settle()
        return True

    def _source(self, insts, port, pad):
        r = []
        for i in insts:
            if not self._set(i, port, 0):
                continue
            a = self.sim[pad]
            self._set(i, port, 1)
            b = self.sim[pad]
            self._set(i, port, 0)
            if a == 0 and b == 1:
                r.append(i)
        if len(r) != 1:
            raise Bug("pad {} is driven by {} buffers".format(pad.backtrace[-1][0] if pad.backtrace else pad, len(r)))
        return r[0]

    def _follows(self, i, oport, j, iport):
        if oport not in i.outputs or iport not in j.inputs:
            return False
        self._set(i, oport, 0)
        a = self.sim[j.inputs[iport]]
        self._set(i, oport, 1)
        b = self.sim[j.inputs[iport]]
        self._set(i, oport, 0)
        return a == 0 and b == 1

    def _need(self, cond, n, what):
        if not cond:
            raise Bug("lane {}: {}".format(n, what))

    def primitive(self, i, n):
        """-> (probe signals of the bits in the order of transmission, clock divisor domain, enable conditions)"""
        p = i.params
        S = self.sim.instances
        if i.of == "OSERDESE2":       # UG471: D1 first; a slave's D3.. continue the master's D8
            self._need(p.get("SERDES_MODE") == "MASTER" and p.get("DATA_WIDTH") == 10 and p.get("DATA_RATE_OQ") == "DDR", n, "serializer configuration {}".format(p))
            sl = [j for j in S if j.of == "OSERDESE2" and j.params.get("SERDES_MODE") == "SLAVE" and j is not i and
                  self._follows(j, "SHIFTOUT1", i, "SHIFTIN1") and self._follows(j, "SHIFTOUT2", i, "SHIFTIN2")]
            self._need(len(sl) == 1 and sl[0].params.get("DATA_WIDTH") == 10 and sl[0].params.get("DATA_RATE_OQ") == "DDR", n, "serializer slave")
            s = sl[0]
            bits = [i.inputs["D{}".format(k)] for k in range(1, 9)] + [s.inputs["D3"], s.inputs["D4"]]
            return bits, [(x.inputs[k], v) for x in (i, s) for k, v in (("OCE", 1), ("RST", 0))]
        if i.of == "OSERDES2":        # UG381: the slave's D1..D4 first, then the master's D1
            self._need(p.get("SERDES_MODE") == "MASTER" and p.get("DATA_WIDTH") == 5 and p.get("DATA_RATE_OQ") == "SDR", n, "serializer configuration {}".format(p))
            sl = [j for j in S if j.of == "OSERDES2" and j.params.get("SERDES_MODE") == "SLAVE" and self._follows(j, "SHIFTOUT3", i, "SHIFTIN3") and
                  self._follows(i, "SHIFTOUT1", j, "SHIFTIN1")]
            self._need(len(sl) == 1 and sl[0].params.get("DATA_WIDTH") == 5, n, "serializer slave")
            s = sl[0]
            return [s.inputs["D{}".format(k)] for k in range(1, 5)] + [i.inputs["D1"]], [(x.inputs[k], v) for x in (i, s) for k, v in (("OCE", 1), ("RST", 0))]
        if i.of == "ODDR2":           # D0 on C0, D1 on C1
            return [i.inputs["D0"], i.inputs["D1"]], [(i.inputs["CE"], 1), (i.inputs["R"], 0), (i.inputs["S"], 0)]
        raise Bug("lane {}: unknown primitive {}".format(n, i.of))

    def enabled(self, ctx, what):
        for n, (bits, en) in self.lanes.items():
            for s, v in en:
                ctx.expect(self.sim[s] == v, "{}: serializer of {} is not enabled".format(what, n))


def locked(sim, v=1):
    """all clock generators report lock"""
    for i in sim.instances:
        for p in ("LOCKED", "LOCK"):
            if p in i.outputs:
                sim[i.outputs[p]] = v
    sim.settle()


def symbols(cols):
    """[n][k] bits, first transmitted first -> integers (first transmitted = bit 0)"""
    return (cols << np.arange(cols.shape[1])).sum(axis=1)


def pair_halves(five, first):
    """5-bit groups, first = index of a low half -> 10-bit symbols"""
    x = five[first:]
    x = x[:len(x)//2*2].reshape(-1, 2)
    return x[:, 0] | (x[:, 1] << 5)


class ExternalClocking:
    """the clock outputs of another video output's clocking module"""
    def __init__(self):
        for n in ("pll0_pix10x", "pll1_pix2x", "pll2_pix", "pll_locked"):
            setattr(self, n, Signal(name="ext_" + n))


class OutBench:
    """VideoOut (memory to serial lanes)"""
    def __init__(self, ctx, rng, device, mode, fifo_depth=64, csr_width=8, inverted=(), vga=0, external=False, aw=None):
        from litevideo.output import VideoOut
        self.ctx, self.rng, self.mode, self.vga = ctx, rng, mode, vga
        self.s6 = device.startswith("xc6")
        dw = {"rgb": 32, "raw": 32, "ycbcr422": 16}[mode]
        self.shift = {32: 2, 16: 1}[dw]
        if aw is None:
            aw = int(rng.choice([20, 24, 26, 32 - self.shift]))
        self.dw, self.aw = dw, aw
        self.port = LiteDRAMNativePort("read", aw, dw, "pix")
        self.pads = vga_pads(vga) if vga else hdmi_pads(inverted)
        self.inverted = inverted
        self.dut = ctx.build(VideoOut, device, self.pads, self.port, mode, fifo_depth, ExternalClocking() if external else None)
        self.dram = ClockDomainsRenamer("pix")(bench.ReadDRAM(self.port, seed=int(rng.integers(1, 1 << 20))))
        self.top = bench.Host(self.dut, csr_width, [self.dram])
        clocks = ("sys", "pix") + (("pix2x",) if self.s6 else ())
        self.sim = ctx.build(gw.Sim, self.top, clocks=clocks)
        locked(self.sim)
        self.names = ["data0", "data1", "data2"]
        if vga:
            p = self.pads
            self.trace = [p.hsync_n, p.vsync_n, p.r, p.g, p.b, p.psave_n]
        else:
            self.lanes = ctx.build(Lanes, self.sim, self.pads, self.names)
            self.trace = [s for n in self.names for s in self.lanes.lanes[n][0]]
        pix = 20.*float(rng.choice([.31, .5, .77, 1., 1.3, 2., 2.9]))
        per = {"sys": 10., "pix": pix}
        if self.s6:
            per["pix2x"] = pix/2
        self.b = aligned_bench(self.sim, per, rng, self.trace, self.top, jitter=0. if self.s6 else .2, metastab=.5)
        self.salt = int(rng.integers(0, 1 << 32))
        self.sim[self.dram.salt] = self.salt
        self.sim.settle()

    def w(self, suffix, v):
        c = [n for n in self.top.words if n.endswith("_" + suffix)]
        i = [n for n in c if "initiator" in n] or c
        if len(i) != 1:
            raise Bug("register {} not found".format(suffix))
        self.b.write(i[0], v)

    def memory(self, cmd=256, dat=256, lat=4, hold=0):
        self.sim[self.dram.p_cmd], self.sim[self.dram.p_dat], self.sim[self.dram.lat] = cmd, dat, lat
        self.sim[self.dram.hold] = hold
        self.sim.settle()

    def word(self, a):
        a = np.asarray(a, np.int64) & ((1 << self.aw) - 1)
        return (bench.fold(a)*bench.MULT + self.salt) & ((1 << (32 if self.dw == 32 else 16)) - 1)

    def program(self, p, base, length):
        for n, v in p.items():
            self.w(n, v)
        self.w("base", base)
        self.w("length", length)

    def take(self):
        """-> 10-bit symbols [n][3] sent since the last call (hdmi) or pad values (vga), one row per pixel clock"""
        if self.vga:
            return self.b.collect("pix")
        if not self.s6:
            a = self.b.collect("pix")
            sym = np.stack([symbols(a[:, 10*k:10*k + 10]) for k in range(3)], 1)
        else:
            d, a, m = self.b.collect_all()
            f = d["pix2x"]
            # which of the two edges of a pixel is each row?
            t = m[(m & self.b.bits["pix2x"]) != 0]
            common = (t & self.b.bits["pix"]) != 0
            self.parity = common
            fives = [symbols(f[:, 5*k:5*k + 5]) for k in range(3)]
            # the low half is the one that enters the serializer in the middle of the pixel
            i = np.nonzero(common)[0]
            first = int(i[0])
            sym = np.stack([pair_halves(x, first) for x in fives], 1)
        for k, n in enumerate(self.names):
            if n in self.inverted:
                sym[:, k] ^= 0x3ff
        return sym


def find_rotation(got, ref):
    """offsets o with got[k] == ref[(o+k) % n] for all k; rows are small int vectors; -> (list, best offset, its first mismatch)"""
    n = len(ref)
    key = lambda x: (x*(1 + np.arange(x.shape[1])*7919*1000003)).sum(axis=1)
    g, r = key(got), key(ref)
    idx = np.arange(len(got))
    best, bm, hits = 0, -1, []
    # candidates: places where the first few rows match
    head = min(len(g), 64)
    for o in range(n):
        if r[o] != g[0]:
            continue
        e = r[(o + idx[:head]) % n]
        b = np.nonzero(e != g[:head])[0]
        if len(b):
            if b[0] > bm:
                best, bm = o, int(b[0])
            continue
        b = np.nonzero(r[(o + idx) % n] != g)[0]
        if len(b):
            if b[0] > bm:
                best, bm = o, int(b[0])
        else:
            hits.append(o)
    return hits, best, bm
