"""data capture: bit stream, delay control, phase detector"""
import numpy as np
from migen import *
import gw, bench, rxphy
from streams import *

RULE = ("capture modules of both families behind data-sheet models of the input primitives: random bit streams with resets, random delay commands over the "
        "CSR bus at random clock ratios with metastability injection and delay lines of random slowness, and sampling phase errors; a case is a distinct "
        "(command, tap) or (10-bit word, alignment) or vote history")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "vendor primitives behave as in UG471 and UG381",
          "commands are issued one at a time (Spartan-6: when not busy), further apart than a clock crossing"]
MIN_EVENTS = 300000
MUST_OBSERVE = ("bits", "resets", "inverted pads", "delay steps", "delay resets", "calibrations", "busy samples", "late reports", "early reports",
                "balanced histories", "phase resets", "histories that stop one vote short of a report", "histories that stop at the threshold", "tap read-backs", "s6", "s7")


def jobs(tier, seed):
    n = 16 if tier == "quick" else 80
    return [dict(name="{}-{}-{}".format(f, k, i), fam=f, kind=k, seed=seed + i) for i in range(n) for f in ("s7", "s6") for k in ("data", "ctl", "phase")]


class B:
    def __init__(self, job, ctx, rng, trace=lambda l, d: []):
        from litevideo.input.datacapture import S6DataCapture, S7DataCapture
        self.s6 = job["fam"] == "s6"
        pads = rxphy.in_pads(("data0",) if rng.random() < .5 else ())
        self.inv = hasattr(pads.data0_p, "inverted")
        if self.inv:
            ctx.count("inverted pads")
        self.dut = ctx.build(S6DataCapture if self.s6 else S7DataCapture, pads.data0_p, pads.data0_n)
        self.host = bench.Host(self.dut, int(rng.choice([8, 32])))
        self.slow = "pix2x" if self.s6 else "pix1p25x"
        self.sim = ctx.build(gw.Sim, self.host, clocks=("sys", "pix", self.slow))
        self.lane = rxphy.Lane(self.sim, pads.data0_p, pads.data0_n, job["name"], self.s6)
        self.b = rxphy.RxBench(self.sim, self.s6, rng, trace(self.lane, self.dut), self.host, sysper=float(rng.uniform(3, 30)), metastab=.5)
        ctx.count(job["fam"])


def run(job, ctx):
    rng = npr(job)
    {"data": data, "ctl": s6ctl if job["fam"] == "s6" else s7ctl, "phase": phase}[job["kind"]](job, ctx, rng)


def data(job, ctx, rng):
    t = B(job, ctx, rng, lambda l, d: [d.d])
    cdp, cds = [t.sim.lo.frag.clock_domains[x] for x in ("pix", t.slow)]
    for rep in range(3):
        # reset of both domains, released within a cycle or so of each other
        for c in (cdp, cds):
            if c.rst is not None:
                t.sim[c.rst] = 1
        t.b.steps(int(rng.integers(3, 40)))
        first = rng.integers(0, 2)
        for i, c in enumerate((cdp, cds) if first else (cds, cdp)):
            if c.rst is not None:
                t.sim[c.rst] = 0
            t.sim.settle()
            if i == 0 and rng.random() < .5:
                t.b.steps(1)
        ctx.count("resets")
        n = t.lane.n
        bits = rng.integers(0, 2, 8000*n)
        if rng.random() < .3:
            bits = np.repeat(bits, rng.integers(1, 30, len(bits)))[:len(bits)]
        d = t.b.drive(t.lane.signals(), t.lane.rows(bits), t.slow)
        t.b.collect()
        while t.b.left(d) > 50:
            t.b.steps(max(1, t.b.left(d)//2))
        out = t.b.collect("pix")[40:, 0]
        got = rxphy.bits_of(out, 10)
        # find the alignment
        s, g = "".join(map(str, bits)), "".join(map(str, got))
        a, cnt = -1, 0
        k0 = s.find(g[:600], 0, len(g) + 4000)
        ok = False
        while k0 >= 0 and cnt < 50:
            if s[k0:k0 + len(g)] == g:
                ok = True
                break
            cnt += 1
            k0 = s.find(g[:600], k0 + 1)
        if not ok:
            ctx.fail("{}: the captured words are not the bit stream in tens, first bit in bit 0{} (first words {})".format(
                job["name"], " (inverted pads)" if t.inv else "", ["{:010b}".format(x) for x in out[:4]]))
            return
        # latency: the bit shown must be recent
        ctx.expect(k0 < 40*10 + 10, "{}: impossible latency".format(job["name"]))
        ctx.ev(len(got))
        ctx.count("bits", len(got))
        ctx.states_bulk((job["fam"], int(x)) for x in np.unique(out))
    ctx.sample("{}: {} bits, alignment {}".format(job["name"], len(got), k0))
    ctx.sanitizers(t.sim)


def csr(host, suffix):
    from fw import Bug
    c = [x for x in host.csrs if x.name.endswith(suffix)]
    if len(c) != 1:
        raise Bug("register *{} not found".format(suffix))
    return c[0].name


def s7ctl(job, ctx, rng):
    t = B(job, ctx, rng, lambda l, d: [x for dl in (l.m[1], l.s[1]) for x in (dl.inputs["LD"], dl.inputs["CE"], dl.inputs["INC"])])
    t.b.ticks(50)
    t.b.collect()
    tap = [0, 0]
    # a live link
    t.b.drive(t.lane.signals(), t.lane.rows(rng.integers(0, 2, 8000), rng.integers(0, 2, 8000)), t.slow, cyclic=True)
    for x, v in zip((t.lane.m, t.lane.s), tap):
        t.sim[x[1].outputs["CNTVALUEOUT"]] = v
    NM = ["reset", "master inc", "master dec", "slave inc", "slave dec"]
    for k in range(150):
        cmd = 1 << int(rng.integers(0, 5)) if rng.random() < .6 else int(rng.choice([0b01010, 0b10100, 0b10010, 0b01100]))
        if rng.random() < .1:
            cmd = 0
        t.b.write(csr(t.host, "dly_ctl"), cmd)
        # two clock crossings
        t.b.ticks(8, t.slow)
        t.b.ticks(8)
        t.b.ticks(8, t.slow)
        a = t.b.collect(t.slow)
        for i, nm in enumerate(("master", "slave")):
            ld, ce, inc = a[:, 3*i], a[:, 3*i + 1], a[:, 3*i + 2]
            up, dn = int((ce & inc).sum()), int((ce & (1 - inc)).sum())
            exp = (int(cmd & 1), (cmd >> (1 + 2*i)) & 1, (cmd >> (2 + 2*i)) & 1)
            got = (int(ld.sum()), up, dn)
            if got != exp:
                ctx.fail("{}: command {:05b}: the {} delay line sees {} loads, {} increments, {} decrements instead of {}".format(job["name"], cmd, nm, *got, exp))
                return
            tap[i] = 0 if exp[0] else (tap[i] + exp[1] - exp[2]) % 32
            ctx.count("delay steps", exp[1] + exp[2])
            ctx.count("delay resets", exp[0])
        ctx.state("s7", cmd, *tap)
        ctx.ev(len(a))
        for x, v in zip((t.lane.m, t.lane.s), tap):
            t.sim[x[1].outputs["CNTVALUEOUT"]] = v
        if k % 5 == 0:
            t.b.ticks(500)
            t.b.ticks(500, t.slow)
            for i, nm in enumerate("ms"):
                v = t.b.read(csr(t.host, "cntvalueout_" + nm))
                ctx.expect(v == tap[i], "{}: cntvalueout_{} reads {}, the delay line is at {}".format(job["name"], nm, v, tap[i]))
                ctx.count("tap read-backs")
            t.b.collect()
    ctx.sample("{}: 150 commands, taps {}".format(job["name"], tap))
    ctx.sanitizers(t.sim)


def s6ctl(job, ctx, rng):
    t = B(job, ctx, rng, lambda l, d: [x for dl in (l.m[1], l.s[1]) for x in (dl.inputs["RST"], dl.inputs["CAL"], dl.inputs["CE"], dl.inputs["INC"])] + [d._dly_busy.status])
    t.b.ticks(50)
    t.b.collect()
    dls = (t.lane.m[1], t.lane.s[1])
    slow = t.b.bits[t.slow]
    # a live link: the phase detector reports all the time
    v = rng.integers(0, 2, (4000, 2))
    t.b.drive([t.lane.m[0].outputs["VALID"], t.lane.m[0].outputs["INCDEC"]], v | (np.arange(4000) % 50 < 25)[:, None], t.slow, cyclic=True)
    for k in range(60):
        cmd = int(rng.choice([1, 2, 4, 8, 16, 32, 5, 10, 16, 32]))
        ops = [((cmd >> (2*i + 1)) & 1, (cmd >> (2*i)) & 1, (cmd >> 4) & 1, (cmd >> 5) & 1) for i in range(2)]    # rst, cal, inc, dec
        # one cycle of the CSR bus, nothing more: the delay lines have to be watched from the next step on
        bus = t.host.bus
        t.sim[bus.adr] = t.host.words[csr(t.host, "dly_ctl")][0]
        t.sim[bus.dat_w] = cmd
        t.sim[bus.we] = 1
        k0 = t.b.nticks["sys"]
        while t.b.nticks["sys"] == k0:
            t.b.steps(1)
        t.sim[bus.we] = 0
        t.sim[bus.adr] = 0x3fff
        t.sim.settle()
        dur = [int(rng.choice([1, 2, 5, 30, 200])) for i in range(2)]
        left = [0, 0]
        seen = [[0, 0, 0, 0] for i in range(2)]
        waits = [any(o[1:]) for o in ops]
        done = [not w for w in waits]
        first = True
        idle = 0
        n = 0
        while True:
            a = np.concatenate(t.b.logs) if t.b.logs else np.zeros((0, 9), np.int64)
            m = np.concatenate(t.b.masks) if t.b.masks else np.zeros(0, np.int64)
            t.b.logs, t.b.masks = [], []
            for r, mm in zip(a, m):
                if not mm & slow:
                    continue
                for i in range(2):
                    rst, cal, ce, inc = r[4*i:4*i + 4]
                    if left[i]:
                        left[i] -= 1
                        if left[i] == 0:
                            done[i] = True
                    seen[i][0] += rst
                    if cal or ce:
                        if left[i]:
                            ctx.fail("{}: a command reaches the delay line while it is busy".format(job["name"]))
                            return
                        left[i] = dur[i]
                        done[i] = False
                        seen[i][1] += cal
                        seen[i][2] += ce & inc
                        seen[i][3] += ce & (1 - inc)
            for i in range(2):
                t.sim[dls[i].outputs["BUSY"]] = int(left[i] > 0)
            t.sim.settle()
            st = t.sim[t.dut._dly_busy.status]
            ctx.count("busy samples")
            # the write may still be one cycle away in the first step
            for i in range(2):
                if waits[i] and not done[i] and not (st >> i) & 1:
                    ctx.fail("{}: command {:06b}: dly_busy reads {} while the {} delay line has not finished".format(job["name"], cmd, st, ("master", "slave")[i]))
                    return
                if not waits[i] and (st >> i) & 1:
                    ctx.fail("{}: command {:06b}: dly_busy reads {} without an operation on the {} delay line".format(job["name"], cmd, st, ("master", "slave")[i]))
                    return
            if all(done) and not any(left):
                idle += 1
                if st == 0 and idle > 60:
                    break
                if idle > 600:
                    ctx.fail("{}: command {:06b}: dly_busy still reads {}".format(job["name"], cmd, st))
                    return
            n += 1
            if n > 5000:
                ctx.fail("{}: command {:06b} does not reach the delay lines".format(job["name"], cmd))
                return
            t.b.steps(1)
            ctx.ev()
        for i in range(2):
            if tuple(seen[i]) != ops[i]:
                ctx.fail("{}: command {:06b}: the {} delay line sees {} (reset, calibrate, increment, decrement) instead of {}".format(
                    job["name"], cmd, ("master", "slave")[i], seen[i], ops[i]))
                return
        ctx.count("delay steps", ops[0][2] + ops[0][3])
        ctx.count("delay resets", ops[0][0] + ops[1][0])
        ctx.count("calibrations", ops[0][1] + ops[1][1])
        ctx.state("s6", cmd, *dur)
    ctx.sample("{}: 60 commands".format(job["name"]))
    ctx.sanitizers(t.sim)


def phase(job, ctx, rng):
    t = B(job, ctx, rng, lambda l, d: [d._phase.status])
    t.b.ticks(50)
    s7 = not t.s6
    n = t.lane.n
    b = t.b
    for rep in range(40):
        # software resets the detector (link quiet meanwhile: no votes)
        if s7:
            quiet = b.drive(t.lane.signals(), t.lane.rows(np.zeros(n, np.int64)), t.slow)
        else:
            V, I = t.lane.m[0].outputs["VALID"], t.lane.m[0].outputs["INCDEC"]
            BU = [x[1].outputs["BUSY"] for x in (t.lane.m, t.lane.s)]
            quiet = b.drive([V, I] + BU, [[0, 0, 0, 0]], t.slow)
        b.ticks(4, t.slow)
        b.write(csr(t.host, "phase_reset"), 1)
        b.ticks(10)
        b.ticks(10, t.slow)
        b.ticks(10)
        ctx.count("phase resets")
        st = t.sim[t.dut._phase.status]
        if st:
            ctx.fail("{}: phase reads {:02b} after a reset".format(job["name"], st))
            return
        kind = str(rng.choice(["late", "early", "mixed", "drift"]))
        L = int(rng.integers(300, 1500))
        p = dict(late=1., early=0., mixed=.5, drift=float(rng.choice([.35, .45, .55, .65])))[kind]
        if s7:
            # the slave samples at the end of the bit: late sampling shows it the next bit
            bits = rng.integers(0, 2, (L + 1)*8)
            if rng.random() < .3:
                bits = np.repeat(rng.integers(0, 2, (L + 1)), 8)      # slow transitions only
            late = rng.random(L) < p
            nxt = bits[1:L*8 + 1].reshape(L, 8)
            cur = bits[:L*8].reshape(L, 8)
            sl = np.where(late[:, None], nxt, cur)
            prev = np.concatenate([np.zeros((1, 8), np.int64), cur[:-1]])
            trans = (cur != prev).any(axis=1)
            vote = np.where(trans, np.where((sl != cur).any(axis=1), 1, -1), 0)
            d = b.drive(t.lane.signals(), t.lane.rows(cur.ravel(), sl.ravel()), t.slow)
        else:
            v, late = rng.integers(0, 2, L), (rng.random(L) < p).astype(np.int64)
            bu = (rng.random((L, 2)) < rng.choice([0, .3])).astype(np.int64)
            vote = np.where((v == 1) & (bu.sum(axis=1) == 0), np.where(late == 1, 1, -1), 0)
            d = b.drive([V, I] + BU, np.concatenate([v[:, None], 1 - late[:, None], bu], 1), t.slow)
        if rng.random() < .5:
            # stop right at the threshold, or next to it
            bal = np.cumsum(vote)
            hit = np.nonzero(bal == int(rng.choice([126, 127, 128, -126, -127, -128, -129])))[0]
            if len(hit):
                L = int(hit[0]) + 1
                vote = vote[:L]
                if s7:
                    cur, sl = cur[:L], sl[:L]
                    d = b.drive(t.lane.signals(), t.lane.rows(cur.ravel(), sl.ravel()), t.slow)
                else:
                    d = b.drive([V, I] + BU, d[1][:L], t.slow)
        b.collect()
        while b.left(d):
            b.ticks(b.left(d), t.slow)
        # back to silence
        if s7:
            b.drive(t.lane.signals(), t.lane.rows(cur[-1:].ravel()), t.slow)
        else:
            b.drive([V, I] + BU, [[0, 0, 0, 0]], t.slow)
        b.ticks(6)
        b.ticks(3, t.slow)
        b.ticks(6)
        st = b.read(csr(t.host, "phase"))
        bal = np.cumsum(vote)
        up, dn = (bal >= 127).any(), (bal <= -128).any()
        e = 0
        if up or dn:
            # whichever was reached first stays
            u, d_ = (int(np.argmax(bal >= 127)) if up else L), (int(np.argmax(bal <= -128)) if dn else L)
            e = 1 if u < d_ else 2
        ctx.count("histories that stop one vote short of a report", int(e == 0 and (bal.max() == 126 or bal.min() == -127)))
        ctx.count("histories that stop at the threshold", int(e != 0 and L - 1 == min(u, d_)))
        if st != e:
            ctx.fail("{}: phase reads {:02b} (bit 0 late, bit 1 early), must be {:02b}: {} votes, balance between {} and {}".format(
                job["name"], st, e, L, bal.min(), bal.max()))
            return
        ctx.count(("balanced histories", "late reports", "early reports")[e])
        ctx.ev(L)
        ctx.state(job["name"], rep, int(bal[-1]))
    ctx.sample("{}: 40 histories".format(job["name"]))
    ctx.sanitizers(t.sim)
