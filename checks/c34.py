"""configuration ports of the clock generators"""
import numpy as np
from migen import *
import gw, bench, rxphy, phy, clocktree
from fw import Bug
from streams import *

RULE = ("clocking modules of both families, alone and inside complete receivers and drivers, behind models of the PLL and DCM configuration ports with random response "
        "times; software issues random accesses over the CSR bus, polls and reads back at random instants; a case is a distinct (access, response time)")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "vendor primitives behave as in XAPP879, XAPP888 and UG382",
          "software waits for drdy (PLL) or for busy to read 0 (DCM) before the next command to the same port"]
MIN_EVENTS = 40000
MUST_OBSERVE = ("reads", "writes", "s6 in", "s7 in", "s7 in split", "s6 out", "s7 out", "secondary accesses", "drdy read 0", "drdy read 1", "dcm loads", "dcm go", "busy read 1", "busy read 0",
                "progdone read 0", "progdone read 1", "overlapping accesses", "accesses while a DCM command is sent", "complete receiver", "complete driver")


def jobs(tier, seed):
    n = 4 if tier == "quick" else 40
    return [dict(name="{}-{}".format(k, i), kind=k, i=i, seed=seed + i) for i in range(n) for k in ("s6in", "s7in", "s7split", "s6out", "s7out")]


def make(job, ctx, rng):
    k = job["kind"]
    whole = job["i"] % 2
    if k in ("s6in", "s7in", "s7split"):
        pads = rxphy.in_pads(("clk",) if rng.random() < .3 else ())
        dev = "xc6" if k == "s6in" else "xc7"
        if whole:
            from litevideo.input import HDMIIn
            ctx.count("complete receiver")
            dut = ctx.build(HDMIIn, pads, device=dev, split_mmcm=k == "s7split", clkin_freq=float(rng.choice([74.25e6, 148.5e6])))
        else:
            from litevideo.input import clocking
            dut = ctx.build(clocking.S6Clocking, pads) if dev == "xc6" else ctx.build(clocking.S7Clocking, pads, split_clocking=k == "s7split")
        clocks = ("sys",)
    else:
        pads = phy.hdmi_pads()
        dev = "xc6slx45" if k == "s6out" else "xc7a35t"
        if whole:
            from litevideo.output.driver import Driver
            ctx.count("complete driver")
            dut = ctx.build(Driver, dev, pads, "rgb")
        else:
            from litevideo.output.driver import clocking_cls
            dut = ctx.build(clocking_cls[dev[:3]], pads, None)
        clocks = ("sys", "base50" if k == "s6out" else "clk100")
    host = bench.Host(dut, int(rng.choice([8, 32])))
    sim = ctx.build(gw.Sim, host, clocks=clocks)
    return pads, dut, host, sim, clocks[1:]


class Regs:
    def __init__(self, b, host):
        self.b, self.host = b, host

    def name(self, suffix):
        c = [x.name for x in self.host.csrs if x.name == suffix or x.name.endswith("_" + suffix)]
        if not c:
            raise Bug("register {} not found".format(suffix))
        return min(c, key=len)

    def w(self, s, v):
        self.b.write(self.name(s), v)

    def r(self, s):
        return self.b.read(self.name(s))


def run(job, ctx):
    rng = npr(job)
    name = job["name"]
    pads, dut, host, sim, ext = make(job, ctx, rng)
    ctx.count({"s6in": "s6 in", "s7in": "s7 in", "s7split": "s7 in split", "s6out": "s6 out", "s7out": "s7 out"}[job["kind"]])
    tree = clocktree.Tree(sim, {"clk_p": pads.clk_p} if "in" in job["kind"] or job["kind"] == "s7split" else {}, ext)
    drps = [i for i in sim.instances if "DEN" in i.inputs]
    main = tree.pll_of("pix")
    if main is None or "DEN" not in main.inputs:
        raise Bug("the PLL of the pixel clock has no configuration port")
    ports = [("", main)]
    if job["kind"] == "s7split":
        o = tree.pll_of("pix_o")
        if o is None or o is main or "DEN" not in o.inputs:
            raise Bug("no secondary PLL with a configuration port")
        ports.append(("_o", o))
    for _, i in ports:
        # the port is clocked by sys
        if tree.pr.domains(i.inputs["DCLK"]).get("sys") != 1:
            ctx.fail("{}: the configuration port of {} is not clocked by sys".format(name, i.of))
            return
    M = [clocktree.DRP(sim, i, rng) for _, i in ports]
    dcm = [i for i in sim.instances if i.of == "DCM_CLKGEN"]
    D = None
    if dcm:
        if tree.pr.domains(dcm[0].inputs["PROGCLK"]).get("sys") != 1:
            ctx.fail("{}: the DCM programming clock is not sys".format(name))
            return
        D = clocktree.DCMPort(sim, dcm[0], rng)
        locks = [dcm[0].outputs["LOCKED"], [i for i in sim.instances if i.of == "BUFPLL"][0].outputs["LOCK"]]
    sim.settle()
    b = clocktree.Reactive(sim, {"sys": 10.}, rng, host, M + ([D] if D else []))
    b.ticks(5)
    pre = "pll" if job["kind"] in ("s6in", "s6out") else "mmcm"
    R = Regs(b, host)

    def opc(k, sfx):
        return "{}_{}{}".format(pre, k, sfx)

    ok = True
    nops = 70
    expect_log = [[] for _ in M]
    state = [dict(issued=False, drdy=0) for _ in M]
    def drp(op):
        # one access, or one on each port at the same time
        todo = list(rng.permutation(len(M)))[:1 + int(rng.random() < .5)]
        acc = []
        for j in todo:
            sfx, m = ports[j][0], M[j]
            we = rng.random() < .5
            aw = 5 if pre == "pll" else 7       # PLL_ADV has 32 configuration registers, MMCME2 and PLLE2 128
            adr = int(rng.choice([rng.integers(0, 1 << aw), rng.integers(0, 8), (1 << aw) - 1]))
            di = int(rng.integers(0, 1 << 16))
            R.w(pre + "_adr", adr)
            if we or rng.random() < .3:
                R.w(pre + "_dat_w", di)
            if any(x.left is not None for x in M):
                ctx.count("overlapping accesses")
            R.w(opc("write" if we else "read", sfx), int(rng.integers(0, 2)))
            expect_log[j].append((int(we), adr, di if we else None))
            acc.append((sfx, m, we, adr, len(expect_log[j])))
            if sfx:
                ctx.count("secondary accesses")
            ctx.count("writes" if we else "reads")
            ctx.state(job["kind"], sfx, int(we), adr, di)
        # poll
        n = 0
        left = list(acc)
        while left:
            k = int(rng.integers(0, len(left)))
            sfx, m, we, adr, nd = left[k]
            before, idle = m.done, m.left is None
            v = R.r(opc("drdy", sfx))
            ctx.count("drdy read {}".format(v))
            if v and m.done < nd:
                ctx.fail("{}: drdy reads 1 before the {} of {:#x} is done".format(name, "write" if we else "read", adr))
                return False
            if not v and before >= nd and n > 3 and idle:
                n += 10
            if n > 200:
                ctx.fail("{}: drdy still reads 0 after the {} of {:#x} ({} accesses reached the PLL, {} issued)".format(name, "write" if we else "read", adr, len(m.log), nd))
                return False
            if v:
                del left[k]
                continue
            n += 1
            b.ticks(int(rng.integers(0, 6)))
        for q, (x, e) in enumerate(zip(M, expect_log)):
            if x.log != e:
                ctx.fail("{}: after {} rounds of accesses, configuration port {} has seen {} (last {}), software issued {} (last {})".format(
                    name, op + 1, ports[q][1].of, len(x.log), x.log[-1:], len(e), e[-1:]))
                return False
        for sfx, m, we, adr, nd in acc:
            if not we:
                dn = "mmcm_dat_o_r" if sfx else pre + "_dat_r"
                v = R.r(dn)
                want = m.regs[adr]
                if v != want:
                    ctx.fail("{}: read of {:#x} returns {:#x}, the register holds {:#x}".format(name, adr, v, want))
                    return False
        # the flag stays, and so do those of other ports
        if rng.random() < .3:
            b.ticks(int(rng.integers(1, 40)))
            for q in range(len(M)):
                if expect_log[q]:
                    v = R.r(opc("drdy", ports[q][0]))
                    if v != 1:
                        ctx.fail("{}: drdy{} falls back to 0 without an access".format(name, ports[q][0]))
                        return False
        return True

    for op in range(nops):
        # commands to the DCM, and accesses before, after and while they are sent
        if D and rng.random() < .4:
            between = rng.random() < .5
            if between:
                ctx.count("accesses while a DCM command is sent")
            if not dcm_op(ctx, rng, name, b, R, D, locks, (lambda: drp(op)) if between else None):
                return
            if between:
                continue
        if not drp(op):
            return
    ctx.ev(b.n)
    ctx.sample("{}: {} accesses in {} cycles".format(name, sum(map(len, expect_log)), b.n))
    ctx.sanitizers(sim)


def dcm_op(ctx, rng, name, b, R, D, locks, between=None):
    if rng.random() < .3:
        for s in locks:
            b.sim[s] = int(rng.integers(0, 2))
        b.sim.settle()
        b.ticks(4)
    go = rng.random() < .35
    n0, g0 = len(D.log), len(D.gap)
    st = None
    for k in range(100):
        st = R.r("status")
        ctx.count("busy read {}".format(st & 1))
        if not st & 1:
            break
    else:
        ctx.fail("{}: busy never ends".format(name))
        return False
    lk = b.sim[locks[0]] | (b.sim[locks[1]] << 1)
    if st >> 2 != lk:
        ctx.fail("{}: status reads {:04b}; lock is {:02b} (DCM in bit 0)".format(name, st, lk))
        return False
    if go:
        R.w("send_go", int(rng.integers(0, 2)))
        exp = (0,)
        ctx.count("dcm go")
    else:
        cmd = int(rng.integers(0, 1024))
        R.w("cmd_data", cmd)
        # busy before the write: not possible for software that waits
        R.w("send_cmd_data", int(rng.integers(0, 2)))
        exp = tuple((cmd >> k) & 1 for k in range(10))
        ctx.count("dcm loads")
        if rng.random() < .3:
            R.w("cmd_data", int(rng.integers(0, 1024)))    # the register may be reused at once
    if between is not None and not between():
        return False
    # follow it to its end, polling
    t0 = b.n
    while True:
        st = R.r("status")
        ctx.count("busy read {}".format(st & 1))
        ctx.count("progdone read {}".format((st >> 1) & 1))
        if not go and not st & 1:
            # no longer busy: the command is out and the port idle long enough
            if len(D.log) != n0 + 1 or D.idle < 2:
                ctx.fail("{}: busy reads 0 while a command is being sent".format(name))
                return False
            break
        if go and b.n - t0 > 6:
            break
        if b.n - t0 > 100:
            ctx.fail("{}: busy does not end".format(name))
            return False
    if rng.random() < .5:
        b.ticks(int(rng.integers(1, 80)))
        st = R.r("status")
        ctx.count("progdone read {}".format((st >> 1) & 1))
        if D.wait is None and not (st >> 1) & 1:
            st = R.r("status")
            if not (st >> 1) & 1:
                ctx.fail("{}: progdone reads 0, the DCM is done".format(name))
                return False
    else:
        st = R.r("status")
        if D.wait is not None and D.wait > 4 and (st >> 1) & 1 and not go:
            ctx.fail("{}: progdone reads 1 during programming".format(name))
            return False
    if D.log[n0:] != [exp] or D.stray:
        ctx.fail("{}: {} {}: the DCM sees runs {} (stray data bits: {})".format(name, "GO" if go else "command", exp, D.log[n0:], D.stray))
        return False
    if any(g < 2 for g in D.gap[g0:]):
        ctx.fail("{}: less than two idle cycles between two commands to the DCM".format(name))
        return False
    ctx.state("dcm", exp)
    return True
