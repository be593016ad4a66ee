#!/usr/bin/env python3
"""Differential test of lib/gw.py against migen.sim: random designs (expressions, signedness, arrays, slices, wide
signals, memories, FSMs, several clock domains) and the repository's own modules.   engine_test.py [n] [seed]"""
import os, sys, random, time
import multiprocessing as mp
from migen import *
from migen.genlib.fifo import AsyncFIFO, SyncFIFO
import selfcheck


class Rand(Module):
    def __init__(self, seed):
        r = random.Random(seed)
        W = [1, 1, 2, 3, 5, 8, 8, 11, 16, 31, 32, 33, 63, 64, 65, 100, 130]
        sig = lambda p: Signal((r.choice(W[:-5] if r.random() < .8 else W), r.random() < .25 and False))
        ins = [Signal(r.choice(W)) if r.random() < .7 else Signal((r.choice(W[2:12]), True)) for _ in range(6)]
        mids = []
        regs = [(Signal(r.choice(W), reset=r.getrandbits(3) & 1) if r.random() < .8 else Signal((r.choice(W[2:12]), True)),
                 r.choice(["sys", "b"])) for _ in range(8)]
        self.ins, self.regs = ins, regs

        def leaf(avail):
            x = r.random()
            if x < .15:
                return Constant(r.randrange(-5, 300))
            return r.choice(avail)

        def ex(avail, d):
            if d == 0 or r.random() < .1:
                return leaf(avail)
            k = r.randrange(14)
            a = lambda: ex(avail, d - 1)
            if k < 3:
                return r.choice([lambda x, y: x + y, lambda x, y: x - y, lambda x, y: x & y, lambda x, y: x | y, lambda x, y: x ^ y])(a(), a())
            if k == 3:
                s = r.choice([s for s in avail if len(s) <= 12] or [Constant(1)])
                t = r.choice([s for s in avail if len(s) <= 12] or [Constant(1)])
                return s*t
            if k == 4:
                return r.choice([lambda x, y: x < y, lambda x, y: x <= y, lambda x, y: x == y, lambda x, y: x != y, lambda x, y: x > y, lambda x, y: x >= y])(a(), a())
            if k == 5:
                return ~a()
            if k == 6:
                return Mux(a(), a(), a())
            if k == 7:
                s = r.choice(avail)
                lo = r.randrange(len(s))
                return s[lo:r.randrange(lo + 1, len(s) + 1)]
            if k == 8:
                return Cat(*[r.choice(avail) for _ in range(r.randrange(1, 4))])
            if k == 9:
                return Replicate(r.choice(avail), r.randrange(1, 4))
            if k == 10:
                s = r.choice([s for s in avail if len(s) <= 3] or [Constant(1)])
                s = s if not getattr(s, "signed", False) else s[0:1]
                return a() << s if r.random() < .5 else a() >> s
            if k == 11:
                i = Signal(2)
                self.comb += i.eq(r.choice(avail))
                return Array([a() for _ in range(4)])[i]
            if k == 12:
                return -a()
            return r.choice([lambda x: x[0:1] if isinstance(x, Signal) else x != 0])(leaf(avail))

        def stm(tgt, avail, d):
            k = r.randrange(6)
            if k < 3 or d == 0:
                if r.random() < .25 and len(tgt) > 2:
                    lo = r.randrange(len(tgt) - 1)
                    return [tgt[lo:r.randrange(lo + 1, len(tgt) + 1)].eq(ex(avail, 2))]
                return [tgt.eq(ex(avail, 3))]
            if k == 3:
                return [If(ex(avail, 2), *stm(tgt, avail, d - 1)).Elif(ex(avail, 1), *stm(tgt, avail, d - 1)).Else(*stm(tgt, avail, d - 1))]
            if k == 4:
                s = r.choice(avail)
                s = s[0:min(2, len(s))]
                c = {i: stm(tgt, avail, d - 1) for i in r.sample(range(1 << len(s)), r.randrange(1, (1 << len(s)) + 1))}
                c["default"] = stm(tgt, avail, d - 1)
                return [Case(s, c)]
            return stm(tgt, avail, d - 1) + stm(tgt, avail, d - 1)
        avail = ins + [x for x, _ in regs]
        for _ in range(6):
            m = Signal(r.choice(W)) if r.random() < .8 else Signal((r.choice(W[2:12]), True))
            self.comb += stm(m, avail, 2)
            avail = avail + [m]
            mids.append(m)
        for x, d in regs:
            s = getattr(self.sync, d)
            s += stm(x, avail, 2)
        # a memory
        mem = Memory(r.choice([8, 20, 70]), 8, init=[r.getrandbits(8) for _ in range(8)])
        self.specials += mem
        from migen.fhdl.specials import WRITE_FIRST, READ_FIRST
        p = mem.get_port(write_capable=True, mode=r.choice([WRITE_FIRST, READ_FIRST]))
        q = mem.get_port(async_read=r.random() < .5, clock_domain="b")
        self.specials += p, q
        self.comb += [p.adr.eq(r.choice(avail)), p.we.eq(r.choice(avail)), p.dat_w.eq(r.choice(avail)), q.adr.eq(r.choice(avail))]
        o1, o2 = Signal(len(p.dat_r)), Signal(len(q.dat_r))
        self.comb += [o1.eq(p.dat_r), o2.eq(q.dat_r)]
        fsm = FSM(reset_state="A")
        self.submodules += fsm
        n = Signal(4)
        fsm.act("A", If(r.choice(avail), NextState("B"), NextValue(n, n + 1)))
        fsm.act("B", If(r.choice(avail), NextState("C")).Elif(r.choice(avail), NextState("A")))
        fsm.act("C", NextState("A"), NextValue(n, n + 3))
        self.clock_domains.cd_b = ClockDomain("b", reset_less=True)
        self.submodules.sf = SyncFIFO(9, 4)
        self.comb += [self.sf.din.eq(r.choice(avail)), self.sf.we.eq(r.choice(avail)), self.sf.re.eq(r.choice(avail))]


def one(a):
    name, seed = a
    try:
        if name == "rand":
            mk, ck, cyc = (lambda: Rand(seed)), {"sys": .8, "b": .5}, 60
        else:
            mk, ck, cyc = REPO[name], {"sys": .7, "pix": .6, "pix_o": .6, "vga": .6}, 150
        m = mk()
    except Exception as e:
        return name, seed, "skip", repr(e)[:100], 0
    try:
        f = m.get_fragment()
        doms = set(f.sync.keys())
        e = selfcheck.compare(mk, dict({k: v for k, v in ck.items() if k in doms}, sys=.8), cycles=cyc, seed=seed)
        return name, seed, "BAD" if e[3] else "ok", str(e[3][:3]), e[0]
    except Exception as e:
        import traceback
        return name, seed, "EXC", traceback.format_exc()[-600:], 0


def repo_modules():
    d = {}

    def add(path, cls, *a, **k):
        def mk():
            import importlib
            return getattr(importlib.import_module(path), cls)(*a, **k)
        d["{}{}".format(cls, a or "")] = mk
    for x in ("rgb2ycbcr.RGB2YCbCr", "ycbcr2rgb.YCbCr2RGB", "rgb2rgb16f.RGB2RGB16f", "rgb16f2rgb.RGB16f2RGB", "ycbcr422to444.YCbCr422to444", "ycbcr444to422.YCbCr444to422"):
        m, c = x.split(".")
        add("litevideo.csc." + m, c)
    add("litevideo.float_arithmetic.floatadd", "FloatAdd")
    add("litevideo.float_arithmetic.floatmult", "FloatMult")
    add("litevideo.output.hdmi.encoder", "Encoder")
    add("litevideo.output.core", "TimingGenerator")
    add("litevideo.output.pattern", "ColorBarsPattern")
    add("litevideo.input.charsync", "CharSync")
    add("litevideo.input.chansync", "ChanSync")
    add("litevideo.input.decoding", "Decoding")
    add("litevideo.input.wer", "WER")
    add("litevideo.input.analysis", "SyncPolarity")
    add("litevideo.input.analysis", "ResolutionDetection")
    add("litevideo.input.analysis", "FrameExtraction", 64, 64)
    add("litevideo.terminal.core", "Terminal")
    return d


REPO = repo_modules()

def race_controls():
    """the race monitor reports a crossing without synchroniser, and nothing else"""
    import numpy as np
    from migen import Module, Signal, ClockDomain, If
    from migen.genlib.cdc import MultiReg, PulseSynchronizer
    import gw

    class D(Module):
        def __init__(self, kind):
            self.clock_domains.pix = ClockDomain(reset_less=True)
            self.i, self.o = Signal(8), Signal(8)
            a, b, e = Signal(8), Signal(8), Signal()
            self.sync += a.eq(self.i)
            if kind == "raw":
                self.comb += b.eq(a ^ 0x55)
                self.sync.pix += self.o.eq(b + 1)
            elif kind == "enable":
                self.sync.pix += If(a[0], self.o.eq(self.o + 1))
            elif kind == "multireg":
                self.specials += MultiReg(a[0], e, "pix")
                self.sync.pix += If(e, self.o.eq(self.o + 1))
            elif kind == "hand2":
                c = Signal(8)
                self.sync.pix += [b.eq(a), c.eq(b), If(c[0], self.o.eq(self.o + 1))]
            elif kind == "held":
                h, f = Signal(8), Signal()
                n = Signal(5)
                self.submodules.ps = PulseSynchronizer("sys", "pix")
                self.sync += [n.eq(n + 1), If(n == 0, h.eq(self.i))]
                self.comb += self.ps.i.eq(n == 1)
                self.sync.pix += If(self.ps.o, self.o.eq(h))
    n = 0
    for kind, racy in (("raw", 1), ("enable", 1), ("multireg", 0), ("hand2", 0), ("held", 0)):
        for jit in (0, .5):
            rng = np.random.default_rng(3)
            d = D(kind)
            sim = gw.Sim(d, ("sys", "pix"))
            sim.race_monitor()
            sim.set_jitter(jit, 3)
            sim.run_sched(rng.integers(1, 4, 4000).astype(np.int64), [d.i], rng.integers(0, 256, (4000, 1)), [d.o])
            if bool(sim.races()) != bool(racy):
                print("race monitor: {} -> {}".format(kind, sim.races()))
                n += 1
    return n


if __name__ == "__main__":
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 60
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    t0 = time.time()
    work = [(k, seed) for k in REPO] + [("rand", seed*100000 + i) for i in range(n)]
    bad = race_controls()
    ok = 0
    edges = 0
    with mp.get_context("fork").Pool(8) as pool:
        for r in pool.imap_unordered(one, work):
            edges += r[4]
            if r[2] == "ok":
                ok += 1
            elif r[2] == "skip":
                print("skipped", r[0], r[3])
            else:
                bad += 1
                print(r)
    print("engine self-check: {} designs agree with migen.sim, {} disagree, {} edges, {:.1f}s".format(ok, bad, edges, time.time() - t0))
    sys.exit(1 if bad else 0)
