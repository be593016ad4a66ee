"""Multi-clock test bench around gw.Sim: clock scheduling, stimulus rows tied to a clock domain, event logging, a CSR
bus master using LiteX's own CSRBank, and DRAM controllers (as gateware, so they run at engine speed)."""
import numpy as np
from migen import *
from litex.soc.interconnect import csr_bus, stream
import gw


class Host(Module):
    """dut behind a real CSR bank (data_width bits wide)"""
    def __init__(self, dut, data_width=8, extra=()):
        self.submodules.dut = dut
        self.submodules += list(extra)
        self.bus = csr_bus.Interface(data_width=data_width, address_width=14)
        csrs = dut.get_csrs()
        self.bank = csr_bus.CSRBank(csrs, bus=self.bus)
        self.submodules += self.bank
        self.csrs = csrs

    def do_finalize(self):
        # the bank numbers its words when it is finalised
        self.bank.finalize()
        self.map = {}
        for i, c in enumerate(self.bank.simple_csrs):
            self.map.setdefault(c.duid, i)
        self.words = {}
        for c in self.csrs:
            if hasattr(c, "simple_csrs"):
                idx = [self.map[s.duid] for s in c.simple_csrs]      # most significant word first
            else:
                idx = [self.map[c.duid]]
            self.words[c.name] = idx


class Schedule:
    """which domains tick at each step; periods in arbitrary units, optional per-edge jitter (fraction)"""
    def __init__(self, periods, rng, jitter=0.0, phase=True):
        self.names = list(periods)
        self.rng = rng
        self.p = {k: float(v) for k, v in periods.items()}
        self.j = jitter
        self.next = {k: (rng.uniform(0, self.p[k]) if phase else self.p[k]) for k in self.names}
        self.now = 0.

    def take(self, nsteps, bits):
        """-> int64 masks [nsteps]"""
        t_end = self.now
        want = nsteps
        rate = sum(1/self.p[k] for k in self.names)
        ev = {}
        horizon = self.now + (want + 8)/max(1/p for p in self.p.values()) + 2*max(self.p.values())
        times, marks = [], []
        for k in self.names:
            n = int((horizon - self.next[k])/self.p[k]) + 2
            if n <= 0:
                continue
            t = self.next[k] + np.arange(n)*self.p[k]
            if self.j:
                t = t + self.rng.uniform(-self.j, self.j, n)*self.p[k]*0.5
            t = np.round(t, 3)
            times.append(t)
            marks.append(np.full(n, bits[k], np.int64))
        t = np.concatenate(times)
        m = np.concatenate(marks)
        o = np.argsort(t, kind="stable")
        t, m = t[o], m[o]
        # coincident edges are one step
        u, inv = np.unique(t, return_inverse=True)
        mm = np.zeros(len(u), np.int64)
        np.bitwise_or.at(mm, inv, m)
        u, mm = u[:want], mm[:want]
        for k in self.names:
            c = int(((mm & bits[k]) != 0).sum())
            self.next[k] += c*self.p[k]
        self.now = u[-1]
        return mm


class Bench:
    def __init__(self, sim, periods, rng, trace=(), host=None, jitter=0.0, metastab=0.0, phase=True):
        self.sim, self.rng, self.host = sim, rng, host
        self.doms = {}
        bits = {}
        per = {}
        for k, p in periods.items():
            m = sim.mask(k)
            if m:
                bits[k], per[k] = m, p
        self.bits = bits
        if len(per) == 1:
            self.sched = None
            self.one = list(bits.values())[0]
        else:
            self.sched = Schedule(per, rng, jitter, phase)
        if metastab:
            sim.set_jitter(metastab, int(rng.integers(1, 1 << 30)))
            sim.race_monitor()
        self.trace = list(trace)
        self.col = {s: i for i, s in enumerate(self.trace)}
        self.logs, self.masks = [], []
        self.drv = []          # [sigs, array, dom, pos]
        self.buf = np.zeros(0, np.int64)
        self.nticks = {k: 0 for k in bits}
        self.log = True
        self.stopped = 0       # mask of domains whose clock does not run

    # -- scheduling ----------------------------------------------------------
    def _fill(self, n):
        if len(self.buf) < n:
            need = max(n - len(self.buf), 4096)
            more = np.full(need, self.one, np.int64) if self.sched is None else self.sched.take(need, self.bits)
            self.buf = np.concatenate([self.buf, more])

    def drive(self, sigs, rows, dom, cyclic=False):
        """from now on, present rows[k] on sigs before the k-th tick of dom (last row stays, or all over again if cyclic)"""
        rows = np.asarray(rows, np.int64).reshape(len(rows), len(sigs))
        d = [list(sigs), rows, self.bits[dom], 0, cyclic]
        self.drv = [x for x in self.drv if not (set(map(id, x[0])) & set(map(id, sigs)))]
        self.drv.append(d)
        return d

    def left(self, d):
        return max(0, len(d[1]) - d[3])

    def steps(self, n):
        """run n schedule steps"""
        while n > 0:
            k = min(n, 1 << 16)
            self._fill(k)
            m = self.buf[:k]
            self.buf = self.buf[k:]
            if self.stopped:
                m = m & ~self.stopped
            ins, cols = [], []
            for d in self.drv:
                t = (m & d[2]) != 0
                idx = d[3] + np.cumsum(t) - t
                if d[4]:
                    rows = d[1][idx % len(d[1])]
                    d[3] += int(t.sum())
                else:
                    rows = d[1][np.minimum(idx, len(d[1]) - 1)]
                    d[3] = min(d[3] + int(t.sum()), len(d[1]))
                ins += d[0]
                cols.append(rows)
            stim = np.concatenate(cols, 1) if cols else np.zeros((k, 0), np.int64)
            out = self.sim.run_sched(m, ins, stim, self.trace)
            if self.log:
                self.logs.append(out)
                self.masks.append(m.copy())
            for dn, b in self.bits.items():
                self.nticks[dn] += int(((m & b) != 0).sum())
            n -= k

    def ticks(self, n, dom="sys"):
        """run until dom has ticked n times"""
        b = self.bits[dom]
        while n > 0:
            self._fill(min(n*8 + 64, 1 << 16))
            c = np.cumsum((self.buf & b) != 0)
            if c[-1] >= n:
                k = int(np.searchsorted(c, n)) + 1
                self.steps(k)
                return
            n -= int(c[-1])
            self.steps(len(self.buf))

    # -- CSR bus ---------------------------------------------------------------
    def write(self, name, value, rest=None):
        """rest: called between the bytes of a value (a slow or interrupted processor)"""
        bus, dw = self.host.bus, len(self.host.bus.dat_w)
        idx = self.host.words[name]
        for j, a in enumerate(idx):
            sh = (len(idx) - 1 - j)*dw
            self.sim[bus.adr] = a
            self.sim[bus.dat_w] = (value >> sh) & ((1 << dw) - 1)
            self.sim[bus.we] = 1
            self.ticks(1)
            self.sim[bus.we] = 0
            self.sim[bus.adr] = 0x3fff
            if rest and j + 1 < len(idx):
                rest()
            gap = int(self.rng.integers(0, 3))
            if gap:
                self.ticks(gap)
        self.sim.settle()

    def read(self, name):
        bus, dw = self.host.bus, len(self.host.bus.dat_w)
        v = 0
        for a in self.host.words[name]:
            self.sim[bus.adr] = a
            self.sim[bus.we] = 0
            self.ticks(1)
            v = (v << dw) | self.sim[bus.dat_r]
            self.sim[bus.adr] = 0x3fff
        self.sim.settle()
        return v

    # -- logs --------------------------------------------------------------------
    def collect(self, dom=None, clear=True):
        """-> dict-like: array of the traced signals as sampled just before each edge of dom"""
        a = np.concatenate(self.logs) if self.logs else np.zeros((0, len(self.trace)), np.int64)
        m = np.concatenate(self.masks) if self.masks else np.zeros(0, np.int64)
        if clear:
            self.logs, self.masks = [], []
        if dom is not None:
            a = a[(m & self.bits[dom]) != 0]
        return a

    def collect_all(self):
        a = np.concatenate(self.logs) if self.logs else np.zeros((0, len(self.trace)), np.int64)
        m = np.concatenate(self.masks) if self.masks else np.zeros(0, np.int64)
        self.logs, self.masks = [], []
        return {k: a[(m & b) != 0] for k, b in self.bits.items()}, a, m


class Lfsr(Module):
    """16 fresh pseudo-random bits per cycle"""
    def __init__(self, seed=1):
        self.o = Signal(16)
        s = Signal(32, reset=(seed*2654435761 + 12345) & 0xffffffff or 1)
        a, b, c = Signal(32), Signal(32), Signal(32)
        self.comb += [a.eq(s ^ (s << 13)), b.eq(a ^ (a >> 17)), c.eq(b ^ (b << 5)), self.o.eq(s[8:24])]
        self.sync += s.eq(c)


MULT = 0x9E3779B1


def fold(a):
    """address with its upper bits mixed in, so that they show in narrow words, too"""
    return a + (a >> 16)*0x6A4D


class ReadDRAM(Module):
    """Native read port controller. Accepts commands with probability p_cmd/256, answers in order after at least
    `lat` cycles with probability p_dat/256 per cycle; like the LiteDRAM crossbar it does not wait for rdata.ready.
    The word at an address is (fold(addr)*MULT + salt), or the contents of `mem` if given."""
    def __init__(self, port, seed=1, depth=256, mem=None):
        self.p_cmd, self.p_dat = Signal(9, reset=256), Signal(9, reset=256)
        self.lat = Signal(8, reset=4)
        self.salt = Signal(32)
        self.hold = Signal()           # controller busy (refresh): nothing accepted, nothing answered
        self.lost = Signal(16)         # data that nobody was ready for
        self.wrote = Signal(16)        # write commands on a read port
        self.flushed = port.flush
        dw, aw = port.data_width, port.address_width
        r = Lfsr(seed)
        r2 = Lfsr(seed + 77)
        f = stream.SyncFIFO([("addr", aw), ("t", 16)], depth)
        self.submodules += r, r2, f
        t = Signal(16)
        age = Signal(16)
        self.comb += [
            age.eq(t - f.source.t),
            f.sink.addr.eq(port.cmd.addr), f.sink.t.eq(t),
            port.cmd.ready.eq(f.sink.ready & (r.o[:8] < self.p_cmd) & ~self.hold),
            f.sink.valid.eq(port.cmd.valid & port.cmd.ready),
            port.rdata.valid.eq(f.source.valid & (age >= self.lat) & (r2.o[:8] < self.p_dat) & ~self.hold),
            f.source.ready.eq(port.rdata.valid),
        ]
        if mem is None:
            self.comb += port.rdata.data.eq(fold(f.source.addr)*MULT + self.salt)
        else:
            p = mem.get_port(async_read=True)
            self.specials += p
            self.comb += [p.adr.eq(f.source.addr), port.rdata.data.eq(p.dat_r)]
        self.sync += [
            t.eq(t + 1),
            If(port.rdata.valid & ~port.rdata.ready, self.lost.eq(self.lost + 1)),
            If(port.cmd.valid & port.cmd.we, self.wrote.eq(self.wrote + 1)),
        ]


class WriteDRAM(Module):
    """Native write port controller: takes commands with probability p_cmd/256; the data of a command is taken (in
    order, whether offered or not: `missed` counts) at least `lat` cycles later."""
    def __init__(self, port, seed=1, depth=64):
        self.p_cmd, self.p_dat = Signal(9, reset=256), Signal(9, reset=256)
        self.lat = Signal(8, reset=2)
        self.hold = Signal()
        self.missed = Signal(16)
        aw = port.address_width
        r, r2 = Lfsr(seed), Lfsr(seed + 77)
        f = stream.SyncFIFO([("addr", aw), ("t", 16)], depth)
        self.submodules += r, r2, f
        t, age = Signal(16), Signal(16)
        self.wr = Signal()             # a word is written this cycle ...
        self.wr_addr = Signal(aw)      # ... here
        self.wr_data = Signal(port.data_width)
        self.wr_we = Signal(port.data_width//8)
        self.comb += [
            age.eq(t - f.source.t),
            f.sink.addr.eq(port.cmd.addr), f.sink.t.eq(t),
            port.cmd.ready.eq(f.sink.ready & (r.o[:8] < self.p_cmd) & ~self.hold),
            f.sink.valid.eq(port.cmd.valid & port.cmd.ready),
            port.wdata.ready.eq(f.source.valid & (age >= self.lat) & (r2.o[:8] < self.p_dat) & ~self.hold),
            f.source.ready.eq(port.wdata.ready),
            self.wr.eq(port.wdata.ready),
            self.wr_addr.eq(f.source.addr),
            self.wr_data.eq(port.wdata.data),
            self.wr_we.eq(port.wdata.we),
        ]
        self.sync += [
            t.eq(t + 1),
            If(port.wdata.ready & ~port.wdata.valid, self.missed.eq(self.missed + 1)),
        ]
