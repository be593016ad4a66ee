"""the whole receiver: TMDS bits on the pads -> frames in memory"""
import numpy as np
from migen import *
from litedram.common import LiteDRAMNativePort
import gw, bench, raster, rx, tmds, rxphy
from fw import Bug

DGB = 0b0100110011
VGB = (0b1011001100, 0b0100110011, 0b1011001100)


def hdmi_geometry(rng, mult, hmax, vmax, hdmi):
    p = rx.capture_geometry(rng, mult, hmax, vmax, 90 if hdmi else 30, 12)
    if hdmi:
        # room for data islands in front of the sync pulse
        x = int(rng.choice([0, 50]))
        p["hsync_start"] += x
        p["hsync_end"] += x
        p["hscan"] = max(p["hscan"], p["hsync_end"] + 20)
    else:
        p["hscan"] = max(p["hscan"], p["hsync_end"] + 2)
    return p


def frame_symbols(rng, p, pol, px, hdmi, islands=.6, info=None):
    """-> 3 arrays of characters; px: one row (r, g, b) per clock (only those of the active area matter)"""
    f = raster.frame(p)
    n = len(f)
    hs, vs, de = f.T
    c0 = (hs | (vs << 1)) ^ pol
    z = np.zeros(n, np.int64)
    ctl = z.copy()
    if not hdmi:
        if info is not None:
            info.append(de == 0)
        return [tmds.encode(px[:, 2], c0, de), tmds.encode(px[:, 1], z, de), tmds.encode(px[:, 0], z, de)]
    W = p["hscan"] + 1
    gb, isl, dg = z.copy(), z.copy(), z.copy()
    rows = n//W
    for y in range(rows):
        b = y*W
        a0 = b + (p["hres"] if y < p["vres"] else 0)
        a1 = b + W
        nxt = (y + 1) % rows < p["vres"]
        free = a1
        if nxt:
            # preamble and guard band in front of the next line
            gb[a1 - 2:a1] = 1
            ctl[a1 - 10:a1 - 2] = 1
            free = a1 - 10
        a0 += 4
        if rng.random() < islands and free - a0 > 60:
            k = 32*int(rng.choice([1, 1, 2]))
            if free - a0 < k + 24:
                k = 32
            s = a0 + int(rng.integers(0, free - a0 - k - 24 + 1)) if free - a0 > k + 24 else None
            if s is not None:
                ctl[s:s + 8] = 5
                dg[s + 8:s + 10] = 1
                isl[s + 10:s + 10 + k] = 1
                dg[s + 10 + k:s + 12 + k] = 1
    if info is not None:
        # control characters
        info.append((de | gb | isl | dg) == 0)
    out = []
    T = np.array(tmds.TERC4)
    for i, (d, c) in enumerate(((px[:, 2], c0), (px[:, 1], ctl & 3), (px[:, 0], ctl >> 2))):
        # disparity starts at zero with each video period
        s = tmds.encode(d, c, de)
        s = np.where(gb == 1, VGB[i], s)
        if i == 0:
            # data islands carry the syncs in the low bits of channel 0
            s = np.where(isl == 1, T[(rng.integers(0, 4, n) << 2) | c0], s)
            s = np.where(dg == 1, T[12 | c0], s)
        else:
            s = np.where(isl == 1, T[rng.integers(0, 16, n)], s)
            s = np.where(dg == 1, DGB, s)
        out.append(s)
    return out


class LinkBench:
    def __init__(self, ctx, rng, device, mode, hdmi, inverted=(), dw=64, aw=20, nslots=2, fifo_depth=256, csr_width=8, split=False, edid=False, sysper=8., metastab=.5, memory=True, live=False):
        from litevideo.input import HDMIIn
        self.ctx, self.rng, self.mode, self.hdmi = ctx, rng, mode, hdmi
        self.s6 = device == "xc6"
        self.dw, self.aw, self.nslots = dw, aw, nslots
        self.bits = 16 if mode == "ycbcr422" else 32
        self.pads = rxphy.in_pads(inverted, edid)
        self.port = LiteDRAMNativePort("write", aw, dw) if memory else None
        self.dut = ctx.build(HDMIIn, self.pads, self.port, n_dma_slots=nslots, fifo_depth=fifo_depth, device=device, mode=mode, hdmi=hdmi, split_mmcm=split)
        extra, self.trace = [], []
        if memory:
            self.dram = bench.WriteDRAM(self.port, int(rng.integers(1, 1 << 20)))
            self.wp = rx.Wide(self.dram.wr_data)
            extra = [self.dram, self.wp]
            self.trace = [self.dram.wr, self.dram.wr_addr, self.dram.wr_we, self.dut.ev.irq] + self.wp.parts
        if live:
            s = self.dut.syncpol
            self.trace = [s.valid_o, s.de, s.hsync, s.vsync, s.r, s.g, s.b, s.c0, s.c1, s.c2]
        self.host = bench.Host(self.dut, csr_width, extra)
        self.sim = ctx.build(gw.Sim, self.host, async_inputs=[self.pads.scl, self.pads.hpd_notif] if edid else [], async_pads=edid)
        rxphy.locked(self.sim)
        self.lanes = [rxphy.Lane(self.sim, getattr(self.pads, n + "_p"), getattr(self.pads, n + "_n"), n, self.s6) for n in ("data0", "data1", "data2")]
        self.slow = self.lanes[0].slow
        self.b = rxphy.RxBench(self.sim, self.s6, rng, self.trace, self.host, sysper=sysper, metastab=metastab, retimed=live)
        self.memory = {}
        self.nwr = 0
        self.irqs = 0

    def csr(self, suffix):
        c = [x for x in self.host.csrs if x.name.endswith(suffix)]
        if len(c) != 1:
            raise Bug("register *{}: {} found".format(suffix, len(c)))
        return c[0].name

    def w(self, suffix, v):
        self.b.write(self.csr(suffix), v)

    def r(self, suffix):
        return self.b.read(self.csr(suffix))

    def send(self, symbols, skew=(0, 0, 0), noise=None):
        """symbols: 3 arrays; skew in bits (leading random bits)"""
        rows = []
        n = None
        sigs = []
        for l, s, k in zip(self.lanes, symbols, skew):
            x = np.concatenate([self.rng.integers(0, 2, k), rxphy.bits_of(s, 10), self.rng.integers(0, 2, 80 - k)])
            if noise is not None:
                a, b = noise
                x[a:b] = self.rng.integers(0, 2, b - a)
            rows.append(l.rows(x))
            sigs += l.signals()
        return self.b.drive(sigs, np.concatenate(rows, 1), self.slow)

    def absorb(self):
        a = self.b.collect("sys")
        k = np.nonzero(a[:, 0] == 1)[0]
        full = (1 << (self.dw//8)) - 1
        for r, w in zip(a[k], rx.wide_rows(a[k][:, 4:])):
            if r[2] == full:
                self.memory[int(r[1])] = w
            self.nwr += 1
        self.irqs += int(a[:, 3].sum())
        return a
