"""EDID over DDC: an I2C master and a bus monitor"""
import numpy as np
from migen import *
import gw, bench
from streams import *

RULE = ("the EDID slave on a wired-AND bus with a software I2C master of random speed that reads and writes offsets, reads bytes, addresses other devices, repeats starts, aborts in "
        "the middle of bytes and drops hot plug at any time; also built into complete receivers; every acknowledge and byte is compared with a memory model, and the slave may pull SDA only for its acknowledge "
        "and data bits, changing only while SCL is low; a case is a distinct byte transferred in a distinct history")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "SCL phases, SDA setup, start and stop times are longer than two sampling periods (128 system clocks), SDA hold is at least one clock",
          "after an abort in the middle of a byte that is read, the offset is unspecified"]
MIN_EVENTS = 3000
MUST_OBSERVE = ("bytes read", "offsets set", "other addresses ignored", "aborted transfers", "wrap-arounds", "repeated starts", "current address reads", "hot plug drops while the slave pulls SDA",
                "reads after a hot plug drop", "contents changed by software", "hot plug readings", "full reads", "data bytes refused", "data bytes that look like the address", "single-ended bus", "split bus", "complete receivers")


def jobs(tier, seed):
    n = 128 if tier == "quick" else 1600
    return [dict(name="{}-{}".format("split" if i % 3 == 1 else "tri", i), split=i % 3 == 1, seed=seed + 61*i) for i in range(n)] + \
        [dict(name="receiver-{}-{}".format(d, i), split=i % 3 == 1, whole=d, seed=seed + 61*i + 7) for i in range(n//32) for d in ("xc6", "xc7")]


class Pads:
    pass


class Line(Module):
    """the wires between master and slave"""
    def __init__(self, pads, split, scl_inv, sda_inv):
        self.m_scl, self.m_sda = Signal(reset=1), Signal(reset=1)
        self.comb += pads.scl.eq(self.m_scl ^ scl_inv)
        if split:
            self.comb += pads.sda.eq((self.m_sda & ~pads.sda_pd) ^ sda_inv)


class Stuck(Exception):
    pass


class Drop(Exception):
    pass


class Master:
    def __init__(self, sim, b, line, pad, rng, slow):
        self.sim, self.b, self.line, self.pad, self.rng = sim, b, line, pad, rng
        self.lo, self.hi = (140, 180) if slow == 0 else (140, 500) if slow == 1 else (400, 900)
        self.scl = self.sda = 1
        self.trip = None            # edges until hot plug goes away

    def _set(self, scl=None, sda=None):
        if scl is not None:
            self.scl = scl
            self.sim[self.line.m_scl] = scl
        if sda is not None:
            self.sda = sda
            self.sim[self.line.m_sda] = sda
            if self.pad is not None:
                self.sim[self.pad] = sda
        self.sim.settle()
        # data may change right behind the falling edge of SCL (as little as one clock later)
        self.b.ticks(int(self.rng.integers(self.lo, self.hi)) if scl != 0 or self.rng.random() < .5 else int(self.rng.choice([1, 2, 30, self.rng.integers(1, 70)])))
        if self.trip is not None:
            self.trip -= 1
            if self.trip <= 0:
                self.trip = None
                raise Drop

    def bus(self):
        return self.sda & (1 - self.drv())

    def start(self):
        """from scl low or high; False if the slave holds SDA low"""
        if self.scl == 0:
            self._set(sda=1)
            self._set(scl=1)
        elif self.sda == 0:
            # stop first
            self._set(sda=1)
        if not self.bus():
            return False
        self._set(sda=0)
        self._set(scl=0)
        return True

    def stop(self):
        if self.scl:
            self._set(scl=0)
        self._set(sda=0)
        self._set(scl=1)
        self._set(sda=1)

    def bit(self, v=1):
        """clock one bit -> level on the bus"""
        self._set(sda=v)
        self._set(scl=1)
        r = self.bus()
        self._set(scl=0)
        return r

    def wbyte(self, x, n=8):
        for k in range(n):
            if self.bit((x >> (7 - k)) & 1) != (x >> (7 - k)) & 1:
                return False
        return True

    def rbyte(self):
        v = 0
        for k in range(8):
            v = (v << 1) | self.bit(1)
        return v


def receiver(pads, device, **options):
    from litevideo.input import HDMIIn
    for n in ("clk", "data0", "data1", "data2"):
        for s in "_p", "_n":
            setattr(pads, n + s, Signal(name="pad_" + n + s))
    return HDMIIn(pads, device=device, **options)


def run(job, ctx):
    from litevideo.input.edid import EDID
    rng = npr(job)
    split = job["split"]
    pads = Pads()
    pads.scl, pads.sda = Signal(name="scl"), Signal(name="sda")
    scl_inv, sda_inv = rng.random() < .3, split and rng.random() < .4
    if scl_inv:
        pads.scl.inverted = True
    if split:
        pads.sda_pu, pads.sda_pd = Signal(), Signal()
        if sda_inv:
            pads.sda.inverted = True
    hpd = rng.random() < .75
    notif = int(rng.integers(0, 3))
    if hpd:
        pads.hpd_en = Signal()
    if notif:
        pads.hpd_notif = Signal()
        if notif == 2:
            pads.hpd_notif.inverted = True
    size = int(rng.choice([128, 256, 256, 256, 512]))
    x = rng.random()
    content = rng.integers(0, 256, size).tolist()
    whole = job.get("whole")
    default = x < .25 and size == 256
    if default:
        import litevideo.input.edid as em
        edid = ctx.build(receiver, pads, whole) if whole else ctx.build(EDID, pads)
        content = list(getattr(em, "_default_edid"))
        ctx.expect(sum(content[:128]) % 256 == 0 and sum(content[128:]) % 256 == 0 and content[:8] == [0] + [255]*6 + [0],
                   "the default EDID has a wrong checksum or header")
        ctx.count("default contents")
    else:
        edid = ctx.build(receiver, pads, whole, default_edid=list(content)) if whole else ctx.build(EDID, pads, list(content))
    if whole:
        ctx.count("complete receivers")
    line = Line(pads, split, int(scl_inv), int(sda_inv))
    top = bench.Host(edid, int(rng.choice([8, 32])), [line])
    sim = ctx.build(gw.Sim, top, async_inputs=[line.m_scl, line.m_sda] + ([pads.hpd_notif] if hasattr(pads, "hpd_notif") else []), async_pads=True)
    if split:
        ctx.count("split bus")
        drv, pad = pads.sda_pd, None
    else:
        ctx.count("single-ended bus")
        (target, o, oe, pad), = sim.tristates
        ctx.expect(target is pads.sda, "the tristate is not on SDA")
        drv = oe
    trace = [line.m_scl, drv] + ([] if split else [o])
    if split:
        trace.append(pads.sda_pu)
    b = bench.Bench(sim, {"sys": 10.}, rng, trace, top, metastab=.5)
    m = Master(sim, b, line, pad, rng, int(rng.integers(0, 3)))
    m.drv = lambda: sim[drv]
    m._set(1, 1)
    reg = lambda s: [n for n in top.words if n.endswith(s)][0]
    mem = [x for x in sim.lo.memories if x.width == 8 and x.depth == size]
    off = None            # unknown until set
    en = not hpd
    allowed = []          # not used: drive windows are checked bit by bit
    name = job["name"]

    def quiet(what):
        """the slave must not pull SDA now"""
        return ctx.expect(m.drv() == 0, lambda: "{}: the slave pulls SDA {}".format(name, what))

    def addr(a):
        """start and address byte -> (bytes intact, acknowledged)"""
        if not m.start():
            ctx.fail("{}: no start possible, the slave holds SDA low".format(name))
            raise Stuck
        quiet("during a start")
        ok = m.wbyte(a)
        if not ctx.expect(ok, "{}: the slave pulled SDA in an address byte {:#x}".format(name, a)):
            raise Stuck
        return 1 - m.bit(1)

    def expect_ack(ack, want, what):
        if not ctx.expect(ack == want, lambda: "{}: {} was {}acknowledged".format(name, what, "" if ack else "not ")):
            raise Stuck
        ctx.ev()

    def setoff(o):
        nonlocal off
        expect_ack(addr(0xa0), int(en), "address 0xa0 (device {}abled)".format("en" if en else "dis"))
        if not en:
            return
        ok = m.wbyte(o)
        ctx.expect(ok, "{}: the slave pulled SDA in an offset byte".format(name))
        expect_ack(1 - m.bit(1), 1, "offset byte")
        off = o % size
        ctx.count("offsets set")

    def read(n, nack=True):
        nonlocal off
        expect_ack(addr(0xa1), int(en), "address 0xa1 (device {}abled)".format("en" if en else "dis"))
        if not en:
            return
        for k in range(n):
            v = m.rbyte()
            if off is not None:
                if not ctx.expect(v == content[off], lambda: "{}: byte {} reads {:#04x}, expected {:#04x} (byte {} of this read)".format(name, off, v, content[off], k)):
                    raise Stuck
                ctx.state(name, off, v, len(hist))
            ctx.ev()
            ctx.count("bytes read")
            last = k == n - 1 and nack
            a = m.bit(1 if last else 0)
            ctx.expect(a == (1 if last else 0), "{}: the slave pulled SDA during the master's acknowledge".format(name))
            if off is not None:
                if off + 1 == size:
                    ctx.count("wrap-arounds")
                off = (off + 1) % size

    def drop():
        """hot plug goes away right now, in whatever state the bus is; the master recovers the bus"""
        nonlocal en, off
        if m.drv():
            ctx.count("hot plug drops while the slave pulls SDA")
        drops.append(b.nticks["sys"])
        b.write(reg("hpd_en"), 0)
        en = False
        b.ticks(300)
        ctx.expect(sim[pads.hpd_en] == 0, "{}: hpd_en pad".format(name))
        if not quiet("although hot plug was dropped"):
            raise Stuck
        recover()

    def recover():
        for _ in range(9):
            m.bit(1)
        m.stop()

    def enable():
        nonlocal en
        b.write(reg("hpd_en"), 1)
        en = True
        b.ticks(5)
        ctx.expect(sim[pads.hpd_en] == 1, "{}: hpd_en pad".format(name))

    hist, drops = [], []
    dropped = False
    try:
        if hpd and rng.random() < .5:
            setoff(3)           # not enabled yet: silence
            m.stop()
        if hpd:
            enable()
        for step in range(26):
            op = rng.choice(["set", "set+read", "set+read", "read", "other", "abort", "aborto", "abortr", "starts", "drop", "mem", "notif", "idle", "tail", "full", "write", "write"])
            hist.append(op)
            o = int(rng.choice([rng.integers(0, 256), 0, min(size, 256) - 1, min(size, 256) - 2, 127]))
            n = int(rng.choice([1, 1, 2, 3, 8]))
            if op == "set":
                setoff(o)
                if rng.random() < .6:
                    m.stop()
            elif op == "set+read":
                setoff(o)
                if rng.random() < .5:
                    m.stop()
                else:
                    ctx.count("repeated starts")
                read(n)
                if rng.random() < .7:
                    m.stop()
                if dropped:
                    ctx.count("reads after a hot plug drop")
            elif op == "read":
                if off is not None:
                    ctx.count("current address reads")
                read(n)
                m.stop()
            elif op == "tail" and off is not None:
                setoff(min(size, 256) - 2)
                read(4)
                m.stop()
            elif op == "full" and rng.random() < .12:
                setoff(0)
                read(size)
                m.stop()
                ctx.count("full reads")
            elif op == "write":
                # a read-only device takes no data
                setoff(o)
                for _ in range(int(rng.integers(1, 4))):
                    x = int(rng.choice([rng.integers(0, 256), 0xa0, 0xa1, 0xa0 ^ (1 << rng.integers(1, 8))]))
                    ctx.expect(m.wbyte(x) and m.bit(1) == 1, lambda: "{}: the slave pulls SDA in or after data byte {:#x} behind the offset".format(name, x))
                    ctx.count("data bytes refused")
                    if x >> 1 == 0x50:
                        ctx.count("data bytes that look like the address")
                if rng.random() < .5:
                    m.stop()
                read(n)
                m.stop()
            elif op == "other":
                a = int(rng.integers(0, 256))
                if a >> 1 == 0x50:
                    a ^= 1 << int(rng.integers(1, 8))
                expect_ack(addr(a), 0, "address {:#x}".format(a))
                for _ in range(int(rng.integers(0, 3))):
                    x = int(rng.integers(0, 256))
                    ctx.expect(m.wbyte(x) and m.bit(1) == 1, "{}: the slave pulls SDA in a transfer to another device".format(name))
                ctx.count("other addresses ignored")
                if rng.random() < .5:
                    m.stop()
            elif op == "abort":
                m.start()
                m.wbyte(int(rng.choice([0xa0, 0xa1, rng.integers(0, 256)])), int(rng.integers(0, 8)))
                if rng.random() < .5:
                    m.stop()
                ctx.count("aborted transfers")
            elif op == "aborto":
                expect_ack(addr(0xa0), 1, "address 0xa0")
                m.wbyte(int(rng.integers(0, 256)), int(rng.integers(0, 7)))
                if rng.random() < .5:
                    m.stop()
                ctx.count("aborted transfers")
            elif op == "abortr":
                # leave in the middle of a byte, as soon as the slave sends a one
                read(n, nack=False)
                j = int(rng.integers(0, 8))
                for _ in range(j):
                    m.bit(1)
                if j == 0 or True:
                    for _ in range(12):
                        if m.start():
                            m.stop()
                            break
                        m._set(scl=0)
                    else:
                        off = None
                        recover()
                    off = None      # whether the byte counts as read is not specified
                ctx.count("aborted transfers")
            elif op == "starts":
                for _ in range(int(rng.integers(1, 4))):
                    m.start()
                ctx.count("repeated starts")
            elif op == "drop" and hpd:
                # somewhere inside a transfer, at any edge of the bus; often where the slave acknowledges
                if m.scl == 0 and rng.random() < .5:
                    m.stop()
                A = (1 if m.scl else 3) + 24
                m.trip = int(rng.choice([rng.integers(1, 170), A + rng.integers(0, 4), A + 27 + rng.integers(0, 4), A + 57 + rng.integers(0, 4)]))
                try:
                    setoff(o)
                    read(3)
                    m.stop()
                except Drop:
                    pass
                m.trip = None
                drop()
                if rng.random() < .5:
                    setoff(o)
                    m.stop()
                enable()
                dropped = True
                off = None
            elif op == "mem" and len(mem) == 1:
                for _ in range(int(rng.integers(1, 5))):
                    a, v = int(rng.integers(0, size)), int(rng.integers(0, 256))
                    sim.mem_write(mem[0], a, v)
                    content[a] = v
                ctx.count("contents changed by software")
            elif op == "notif":
                for v in (1, 0, 1):
                    if notif:
                        sim[pads.hpd_notif] = v
                    b.ticks(6)
                    e = 1 if not notif else v ^ (notif == 2)
                    ctx.expect(b.read(reg("hpd_notif")) == e, "{}: hpd_notif reads {}, expected {}".format(name, 1 - e, e))
                    ctx.count("hot plug readings")
            elif op == "idle":
                if m.scl == 0:
                    m.stop()
                b.ticks(int(rng.integers(1, 3000)))
                quiet("on an idle bus")
    except Stuck:
        pass
    a = b.collect()
    # bus rules over the whole run
    scl, d = a[:, 0], a[:, 1]
    chg = np.nonzero(d[1:] != d[:-1])[0] + 1
    hot = [int(t) for t in chg if scl[t] == 1 and scl[t - 1] == 1]
    hot = [t for t in hot if not any(x <= t < x + 400 for x in drops)]
    if hot:
        ctx.fail("{}: the slave changed SDA while SCL was high (cycle {})".format(name, hot[0]))
    if split:
        ctx.expect((a[:, 2] == 0).all(), "{}: active pull-up on SDA".format(name))
    else:
        ctx.expect((a[:, 2][d == 1] == 0).all(), "{}: the slave drives SDA high".format(name))
    ctx.sample("{}: {} size {}".format(name, ",".join(hist), size))
    ctx.sanitizers(sim)
