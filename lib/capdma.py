"""bench for the capture DMA: frame source, software model, memory model"""
import numpy as np
from migen import *
from litedram.common import LiteDRAMNativePort
import gw, bench
from fw import Bug

M32 = (1 << 32) - 1


def part(idx, i):
    """32-bit part i of word idx"""
    return (idx*bench.MULT + i*0x5bd1e995 + (idx >> 7)) & M32


class FrameSource(Module):
    """endless frames of self-identifying words with random gaps; a word once offered stays until taken"""
    def __init__(self, sink, seed):
        self.p_valid = Signal(9, reset=256)
        self.flen, self.fmask = Signal(24, reset=16), Signal(16)
        self.gap, self.gmask = Signal(16), Signal(16)
        self.enable = Signal()
        self.idx = Signal(32)
        r, r2 = bench.Lfsr(seed), bench.Lfsr(seed + 5)
        self.submodules += r, r2
        valid, pos, left, wait = Signal(), Signal(24), Signal(24, reset=1), Signal(16)
        w = len(sink.pixels)
        self.comb += [
            sink.valid.eq(valid),
            sink.sof.eq(pos == 0),
            sink.pixels.eq(Cat(*[(self.idx*bench.MULT + ((i*0x5bd1e995) & M32) + (self.idx >> 7))[:32] for i in range((w + 31)//32)])),
        ]
        self.sync += [
            If(wait != 0, wait.eq(wait - 1)),
            If(~valid,
                If(self.enable & (wait == 0) & (r.o[:8] < self.p_valid), valid.eq(1))
            ).Elif(sink.ready,
                self.idx.eq(self.idx + 1),
                If(pos == 0,
                    left.eq(self.flen + (r2.o & self.fmask) - 1),
                    pos.eq(1),
                    valid.eq(r.o[:8] < self.p_valid)
                ).Elif(left == 1,
                    pos.eq(0),
                    wait.eq(self.gap + (r2.o & self.gmask)),
                    valid.eq((r.o[:8] < self.p_valid) & (self.gap == 0) & (self.gmask == 0))
                ).Else(
                    left.eq(left - 1),
                    valid.eq(r.o[:8] < self.p_valid)
                )
            )
        ]


class DMABench:
    def __init__(self, ctx, rng, nslots=2, dw=64, aw=20, csr_width=8):
        from litevideo.input.dma import DMA
        self.ctx, self.rng, self.nslots, self.dw, self.aw = ctx, rng, nslots, dw, aw
        self.port = LiteDRAMNativePort("write", aw, dw)
        self.dut = ctx.build(DMA, self.port, nslots)
        self.src = FrameSource(self.dut.frame, int(rng.integers(1, 1 << 20)))
        self.dram = bench.WriteDRAM(self.port, int(rng.integers(1, 1 << 20)))
        self.wp = Wide2(self.dram.wr_data)
        self.host = bench.Host(self.dut, csr_width, [self.src, self.dram, self.wp])
        self.sim = ctx.build(gw.Sim, self.host)
        self.shift = (dw//8).bit_length() - 1
        find = lambda suffix: self._csr(suffix)
        self.st = [find("slot{}_status".format(i)) for i in range(nslots)]
        self.ad = [find("slot{}_address".format(i)) for i in range(nslots)]
        f = self.dut.frame
        self.np = len(self.wp.parts)
        # the last words of an address register hold it completely only when the CSR is one word wide: trace the storage
        self.trace = [f.valid, f.ready, f.sof, self.src.idx, self.dram.wr, self.dram.wr_addr, self.dram.wr_we, self.dut.ev.irq]
        self.c_st = len(self.trace)
        self.trace += [c.storage for c in self.st]
        self.c_ad = len(self.trace)
        self.trace += [c.storage for c in self.ad]
        self.c_p = len(self.trace)
        self.trace += self.wp.parts
        self.c_en = len(self.trace)
        self.trace += [find("enable").storage]
        p = self.port
        self.c_cmd = len(self.trace)
        self.trace += [p.cmd.valid, p.cmd.ready, p.cmd.addr, p.cmd.we]
        self.b = bench.Bench(self.sim, {"sys": 10.}, rng, self.trace, self.host)
        self.names = {}
        self.logs = []

    def _csr(self, suffix):
        c = [x for x in self.host.csrs if x.name.endswith(suffix)]
        if len(c) != 1:
            raise Bug("register *{} not found".format(suffix))
        return c[0]

    def w(self, suffix, v):
        self.b.write(self._csr(suffix).name, v)

    def r(self, suffix):
        return self.b.read(self._csr(suffix).name)

    def settings(self, **kw):
        for k, v in kw.items():
            o, n = k.split("_", 1)
            self.sim[getattr({"src": self.src, "dram": self.dram}[o], n)] = v
        self.sim.settle()

    @property
    def t(self):
        return self.b.nticks["sys"]

    def run(self, n):
        self.b.ticks(n)

    def log(self):
        a = self.b.collect("sys")
        self.logs.append(a)
        return a

    def all(self):
        self.log()
        return np.concatenate(self.logs)


class Wide2(Module):
    def __init__(self, sig, w=32):
        n = (len(sig) + w - 1)//w
        self.parts = [Signal(min(w, len(sig) - i*w)) for i in range(n)]
        self.comb += [p.eq(sig[i*w:i*w + len(p)]) for i, p in enumerate(self.parts)]
